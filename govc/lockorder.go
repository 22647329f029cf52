package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Lock order.  While a contract is executed every acquisition records an edge
// from each lock that is held to the lock that is taken; a call that a contract
// stands for records edges to all locks which the real callee (statically, with
// all it calls) can take.  The edges of all contracts of a property together
// must have no cycle.

type held struct {
	obj   int
	path  string
	class string
	ptr   *PtrV  // the lock, when code of the product took it
	where string // and where it did
}

type lockEdge struct{ from, to string }

func lockPath(p []PE) string {
	var sb strings.Builder
	for _, e := range p {
		if e.ix != nil {
			fmt.Fprintf(&sb, "[%p]", e.ix)
		} else {
			fmt.Fprintf(&sb, ".%d", e.f)
		}
	}
	return sb.String()
}

// lockClass names a lock by the field that holds it.
func (ex *Ex) lockClass(st *State, obj int, path []PE) string {
	if len(path) == 0 {
		for g, id := range st.globals {
			if id == obj {
				return strings.ReplaceAll(g.String(), modPath+"/", "")
			}
		}
	}
	o := st.heap[obj]
	if o == nil || len(path) == 0 || path[len(path)-1].ix != nil {
		return "a lock of its own"
	}
	pt := ex.typeAt(o.typ, path[:len(path)-1])
	stt, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return "a lock of its own"
	}
	return strings.ReplaceAll(namedPath(pt), modPath+"/", "") + "." + stt.Field(path[len(path)-1].f).Name()
}

func (ex *Ex) addEdge(st *State, from, to, how string) {
	if st.mute || from == to && how == "" {
		return
	}
	if ex.lockEdges == nil {
		ex.lockEdges = map[lockEdge]string{}
	}
	e := lockEdge{from, to}
	if ex.lockEdges[e] == "" {
		ex.lockEdges[e] = how + " at " + ex.where(st)
	}
}

func (ex *Ex) lockTaken(st *State, r PtrV, what string) {
	h := held{obj: r.obj, path: lockPath(r.path), class: ex.lockClass(st, r.obj, r.path)}
	switch what {
	case "lock", "rlock":
		if !ex.v.isGhostFn(st.top().fn) {
			q := r
			h.ptr, h.where = &q, ex.where(st)
		}
		if !ex.v.isGhostFn(st.top().fn) {
			for _, x := range st.held {
				if x.class != h.class {
					ex.addEdge(st, x.class, h.class, what)
				}
			}
		}
		st.held = append(st.held[:len(st.held):len(st.held)], h)
	default:
		for i := len(st.held) - 1; i >= 0; i-- {
			if x := st.held[i]; x.obj == h.obj && x.path == h.path {
				st.held = append(st.held[:i:i], st.held[i+1:]...)
				break
			}
		}
	}
}

// locksReleased: at the end of a contract no lock that the product took is
// still held.
func (ex *Ex) locksReleased(st *State) {
	if ex.opts.LockLabel == "" || st.mute {
		return
	}
	for _, h := range st.held {
		if h.ptr == nil {
			continue
		}
		if cur, ok := ex.load(st, *h.ptr).(*Term); ok {
			ex.oblige(st, ex.opts.LockLabel, ex.tc.Eq(cur, ex.tc.Zero), h.class+" was taken at "+h.where+" and is still held")
		}
	}
}

// lockStandIn is a call that is not followed.
func (ex *Ex) lockStandIn(st *State, fn *ssa.Function) {
	if len(st.held) == 0 || st.mute || !ex.v.inModule(fn.Pkg) || len(fn.Blocks) == 0 || ex.v.isGhostFn(fn) || ex.v.isGhostFn(st.top().fn) {
		return
	}
	for to := range ex.v.footprint(fn) {
		for _, x := range st.held {
			if x.class == to && ex.opts.LockLabel != "" {
				ex.oblige(st, ex.opts.LockLabel, ex.tc.False, fnName(fn)+" can take "+to+", which is held, at "+ex.where(st))
			} else {
				ex.addEdge(st, x.class, to, "call of "+fnName(fn))
			}
		}
	}
}

// footprint is the set of locks that a function can take while it runs.
func (v *Verifier) footprint(fn *ssa.Function) map[string]bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.foot == nil {
		v.foot = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := v.foot[fn]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || v.isGhostFn(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := i.(*ssa.Go); ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch fnName(g) {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
					m[staticClass(c.Common().Args[0])] = true
					continue
				}
				if v.inModule(g.Pkg) || g.Pkg == nil {
					walk(g)
				}
			}
		}
	}
	walk(fn)
	v.foot[fn] = m
	return m
}

func staticClass(x ssa.Value) string {
	if g, ok := x.(*ssa.Global); ok {
		return strings.ReplaceAll(g.String(), modPath+"/", "")
	}
	fa, ok := x.(*ssa.FieldAddr)
	if !ok {
		return "a lock of its own"
	}
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return "a lock of its own"
	}
	stt, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return "a lock of its own"
	}
	return strings.ReplaceAll(namedPath(p.Elem()), modPath+"/", "") + "." + stt.Field(fa.Field).Name()
}

// lockOrder merges the edges of all contracts and reports a cycle.
func lockOrder(results []*Result) (edges []string, fails []failure) {
	all := map[lockEdge]string{}
	for _, r := range results {
		for e, w := range r.Ex.lockEdges {
			if all[e] == "" {
				all[e] = r.Root.Name + ": " + w
			}
		}
	}
	next := map[string][]string{}
	for e := range all {
		next[e.from] = append(next[e.from], e.to)
		edges = append(edges, e.from+" before "+e.to)
	}
	sort.Strings(edges)
	for e, w := range all {
		// a way back
		seen := map[string]bool{}
		var way func(x string) []string
		way = func(x string) []string {
			if x == e.from {
				return []string{x}
			}
			if seen[x] {
				return nil
			}
			seen[x] = true
			sort.Strings(next[x])
			for _, y := range next[x] {
				if p := way(y); p != nil {
					return append([]string{x}, p...)
				}
			}
			return nil
		}
		if p := way(e.to); p != nil {
			var how []string
			for i := 0; i+1 < len(p); i++ {
				how = append(how, p[i]+" is held when "+p[i+1]+" is taken ("+all[lockEdge{p[i], p[i+1]}]+")")
			}
			fails = append(fails, failure{Root: "all contracts", Label: "locks are taken in one order", Where: w, Reason: e.from + " is held when " + e.to + " is taken, and elsewhere " + strings.Join(how, ", ")})
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Reason < fails[j].Reason })
	return
}
