package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/companyzero/zkc"

type Verifier struct {
	mu       sync.Mutex
	fns      map[*ssa.Function]*FnInfo
	foot map[*ssa.Function]map[string]bool
	debug    bool
	ghost    map[string]*ssa.Function
	modelFns map[string]*ssa.Function
	prog     *ssa.Program
	roots    []*RootOpts
	guards   map[string]string
	repo     string
	verif    string
	tier     string
	cross    bool
	pkgErrs  map[string][]string
	dropped  map[string]string // contract files that do not type-check
	budget   time.Duration
	nSecond  int
	tSecond  time.Duration
}

func (v *Verifier) inModule(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// library functions whose real bodies are executed.
var inlineLib = map[string]bool{
	"errors.New": true, "(*errors.errorString).Error": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"bytes.HasPrefix": true,
}
var inlineLibPkg = map[string]bool{"encoding/binary": false}

func (v *Verifier) inlinable(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		return v.inlinable(fn.Parent())
	}
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	if v.inModule(p) {
		return true
	}
	n := fnName(fn)
	if inlineLib[n] {
		return true
	}
	if n == "(github.com/vaughan0/go-ini.File).Section" || n == "(github.com/vaughan0/go-ini.File).Get" {
		return true
	}
	if strings.HasPrefix(n, "(encoding/binary.littleEndian)") || strings.HasPrefix(n, "(encoding/binary.bigEndian)") {
		return true
	}
	return false
}

// second asks the second back end.
func (v *Verifier) second(tc *TC, pc []*Term, neg *Term) int {
	t0 := time.Now()
	s := NewSolver(tc, "cvc5", 20000)
	defer s.Close()
	r := s.Check(pc, neg)
	v.mu.Lock()
	v.nSecond++
	v.tSecond += time.Since(t0)
	v.mu.Unlock()
	return r
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

// overlay maps every contract file into the repository tree.
func (v *Verifier) overlay() map[string][]byte {
	m := map[string][]byte{}
	if v.dropped == nil {
		v.dropped = map[string]string{}
	}
	base := filepath.Join(v.verif, "contracts")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(v.repo, filepath.Dir(rel), "zzv_"+filepath.Base(rel))
		if _, bad := v.dropped[dst]; bad {
			return nil
		}
		m[dst] = b
		return nil
	})
	if err != nil {
		fatal("contracts: %v", err)
	}
	return m
}

func (v *Verifier) load() {
	var ps []*packages.Package
	for try := 0; ; try++ {
		ov := v.overlay()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: v.repo, Overlay: ov, BuildFlags: []string{"-mod=readonly"}}
		var err error
		ps, err = packages.Load(cfg, "./...")
		if err != nil {
			fatal("load: %v", err)
		}
		v.pkgErrs = map[string][]string{}
		drop := map[string]string{}
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i > 0 {
					f = f[:i]
				}
				if strings.HasPrefix(filepath.Base(f), "zzv_") && drop[f] == "" {
					drop[f] = e.Error()
				}
				v.pkgErrs[p.PkgPath] = append(v.pkgErrs[p.PkgPath], e.Error())
			}
		})
		if len(drop) == 0 || try > 8 {
			break
		}
		// a contract file that no longer type-checks against the source:
		// its contracts count as failed, the others are still verified.
		for f, e := range drop {
			v.dropped[f] = e
		}
	}
	for p, es := range v.pkgErrs {
		fatal("%s does not type-check: %s", p, strings.Join(es, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	v.prog = prog
	v.ghost = map[string]*ssa.Function{}
	v.modelFns = map[string]*ssa.Function{}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zzv_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if sf == nil {
					continue
				}
				short := strings.TrimPrefix(p.PkgPath, modPath+"/") + "." + fd.Name.Name
				v.ghost[short] = sf
				if fd.Doc == nil {
					continue
				}
				var r *RootOpts
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//@") {
						continue
					}
					line := strings.TrimSpace(c.Text[3:])
					fs := fields(line)
					if len(fs) == 0 {
						continue
					}
					switch fs[0] {
					case "model":
						v.modelFns[strings.Join(fs[1:], " ")] = sf
					case "verify":
						r = &RootOpts{Name: short, Fn: sf, Uses: map[string]string{}, MaxSteps: 400000, MaxPaths: 20000, pkg: p.PkgPath}
						v.roots = append(v.roots, r)
						for _, x := range fs[1:] {
							if i := strings.Index(x, "="); i > 0 {
								v.opt(r, x[:i], x[i+1:])
							} else if len(x) > 1 && x[0] == 'C' && x[1] >= '0' && x[1] <= '9' {
								r.Props = append(r.Props, x)
							} else {
								v.opt(r, x, "")
							}
						}
					case "use":
						// use <function> := <ghost>
						l := strings.TrimSpace(strings.TrimPrefix(line, "use"))
						i := strings.Index(l, ":=")
						if r == nil || i < 0 {
							fatal("bad directive %q", c.Text)
						}
						g := strings.TrimSpace(l[i+2:])
						if g != "-" && !strings.Contains(g, ".") {
							g = strings.TrimPrefix(p.PkgPath, modPath+"/") + "." + g
						}
						r.Uses[strings.TrimSpace(l[:i])] = g
					case "opt":
						for _, x := range fs[1:] {
							if i := strings.Index(x, "="); i > 0 {
								v.opt(r, x[:i], x[i+1:])
							} else {
								v.opt(r, x, "")
							}
						}
					default:
						fatal("bad directive %q", c.Text)
					}
				}
			}
		}
	}
	sort.Slice(v.roots, func(i, j int) bool { return v.roots[i].Name < v.roots[j].Name })
}

// droppedRoots lists, from the text alone, the contracts of a file.
func droppedRoots(base, repo, f string) (out []RootOpts) {
	rel, _ := filepath.Rel(repo, f)
	src := filepath.Join(base, filepath.Dir(rel), strings.TrimPrefix(filepath.Base(rel), "zzv_"))
	b, err := os.ReadFile(src)
	if err != nil {
		return
	}
	var props []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "//@ verify ") {
			for _, x := range fields(l)[2:] {
				if len(x) > 1 && x[0] == 'C' && x[1] >= '0' && x[1] <= '9' {
					props = append(props, x)
				}
			}
		}
		if strings.HasPrefix(l, "func ") && props != nil {
			n := strings.TrimPrefix(l, "func ")
			if i := strings.Index(n, "("); i > 0 {
				n = n[:i]
			}
			out = append(out, RootOpts{Name: filepath.Dir(rel) + "." + n, Props: props})
			props = nil
		}
	}
	return
}

func fields(s string) []string {
	var out []string
	cur := ""
	q := false
	for _, c := range s {
		if c == '"' {
			q = !q
			continue
		}
		if !q && (c == ' ' || c == '\t') {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(c)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func (v *Verifier) opt(r *RootOpts, k, val string) {
	n := func() int {
		x, err := strconv.Atoi(val)
		if err != nil {
			fatal("%s: bad %s=%s", r.Name, k, val)
		}
		return x
	}
	switch k {
	case "nopanic":
		if val == "" {
			val = "no run-time panic"
		}
		r.NoPanic = val
	case "locks":
		if val == "" {
			val = "lock discipline"
		}
		r.LockLabel = val
	case "unroll":
		r.Unroll = n()
	case "steps":
		r.MaxSteps = n()
	case "paths":
		r.MaxPaths = n()
	case "bounded":
		r.Bounded = val
	case "chanblock":
		r.ChanBlock = true
	case "noblock":
		r.ChanBlock, r.NoBlock = true, true
	case "cutknown":
		r.CutKnown = true
	case "gorun":
		r.GoRun = true
	case "panicfns":
		r.PanicFns = strings.Split(val, ",")
	case "noinit":
		r.NoInit = true
	case "guard":
		r.Guards = append(r.Guards, val)
	case "nonnil":
		r.NonNil = append(r.NonNil, val)
	case "secs":
		r.Secs = n()
	default:
		fatal("%s: unknown option %s", r.Name, k)
	}
}

// ---------------------------------------------------------------------------

type Result struct {
	Root    *RootOpts
	Ex      *Ex
	Err     []string // failures not tied to a clause (incomplete, vacuous)
	Wall    time.Duration
	Clauses []string
}

// staticLabels lists the clause labels and cover points of a contract.
func staticLabels(fn *ssa.Function) (asserts, covers []string) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f, ok := c.Call.Value.(*ssa.Function)
			if !ok {
				continue
			}
			n := fnName(f)
			if n != "zzv.Assert" && n != "zzv.Reach" {
				continue
			}
			k, ok := c.Call.Args[0].(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			s, _ := strconv.Unquote(k.Value.ExactString())
			if n == "zzv.Assert" {
				asserts = append(asserts, s)
			} else {
				covers = append(covers, s)
			}
		}
	}
	return
}

// verify runs a contract; a loop that turns out to go on for ever while it is
// followed pass by pass is cut from the start in another run.
func (v *Verifier) verify(r *RootOpts) *Result {
	cuts := map[*ssa.BasicBlock]bool{}
	for {
		if res := v.verify1(r, cuts); res != nil {
			return res
		}
	}
}

func (v *Verifier) verify1(r *RootOpts, cuts map[*ssa.BasicBlock]bool) (res *Result) {
	np := r.NoPanic
	defer func() {
		if x := recover(); x != nil {
			c, ok := x.(recut)
			if !ok {
				panic(x)
			}
			r.NoPanic = np
			cuts[c.header] = true
			res = nil
		}
	}()
	t0 := time.Now()
	tc := NewTC()
	ex := &Ex{v: v, prog: v.prog, tc: tc, opts: r, encs: map[*Term]*SnapV{}, pathOf: map[*Term]pathSplit{}, obls: map[string]*Obl{}, incomplete: map[string]int{}, externs: map[string]int{}, inlined: map[string]int{}, models: map[string]int{}, covers: map[string]bool{}, loopNotes: map[string]string{}, gerr: map[int]bool{}, forceCut: cuts}
	if v.debug {
		ex.forks = map[string]int{}
	}
	ex.trace = os.Getenv("GOVC_TRACE") != ""
	ex.sol = NewSolver(tc, "z3-new", 10000)
	if p := os.Getenv("GOVC_SMT"); p != "" {
		f, _ := os.Create(p)
		ex.sol.log = f
	}
	defer ex.sol.Close()
	if v.cross {
		ex.sol2 = NewSolver(tc, "cvc5", 5000)
		defer ex.sol2.Close()
	}
	d := v.budget
	if r.Secs > 0 {
		d = time.Duration(r.Secs) * time.Second
		if v.tier == "thorough" {
			d *= 4
		}
	}
	ex.deadline = t0.Add(d)
	tc.prove = func(c *Term) bool {
		if ex.cur == nil || ex.inProve {
			return false
		}
		ex.inProve = true
		defer func() { ex.inProve = false }()
		return ex.valid(ex.cur, c)
	}
	res = &Result{Root: r, Ex: ex}
	defer func() {
		res.Wall = time.Since(t0)
	}()
	st := &State{heap: map[int]*Obj{}, pcset: map[*Term]bool{}, lb: map[*Term]*bigInt{}, negc: map[*Term]int{}, ghost: map[string]Value{}, symres: map[int]PtrV{}, ifres: map[int]IfaceV{}, iftag: map[int]bool{}, bases: map[int]*Base{}, globals: map[*ssa.Global]int{}}
	ex.cur = st
	// package initialisation
	if !r.NoInit {
		ini := r.Fn.Pkg.Func("init")
		var final []*State
		np := r.NoPanic
		r.NoPanic = ""
		ex.pushFrame(st, ini, nil, nil, nil)
		st.frames[0].onRet = func(ex *Ex, s *State, _ []Value) { final = append(final, s) }
		ex.work = []*State{st}
		ex.run()
		r.NoPanic = np
		if len(final) == 0 {
			res.Err = append(res.Err, "package initialisation could not be executed")
			for k := range ex.incomplete {
				res.Err = append(res.Err, k)
			}
			return
		}
		st = final[0]
		ex.paths, ex.ended = 0, 0
		ex.externs = map[string]int{}
	}
	st.steps = 0
	ex.cur = st
	var args []Value
	for _, p := range r.Fn.Params {
		a := ex.freshV(st, p.Type(), p.Name())
		if sp, ok := a.(SymPtr); ok {
			ex.assume(st, tc.Not(sp.nilv))
		}
		args = append(args, a)
	}
	done := 0
	ex.pushFrame(st, r.Fn, args, nil, nil)
	st.frames[0].onRet = func(ex *Ex, s *State, _ []Value) {
		done++
		ex.locksReleased(s)
	}
	ex.work = []*State{st}
	ex.run()
	for k, n := range ex.incomplete {
		res.Err = append(res.Err, fmt.Sprintf("not analysed (%d): %s", n, k))
	}
	sort.Strings(res.Err)
	as, cs := staticLabels(r.Fn)
	seen := map[string]bool{}
	for _, l := range as {
		if !seen[l] && ex.obls[l] == nil {
			res.Err = append(res.Err, "vacuous: no path reaches clause \""+l+"\"")
		}
		seen[l] = true
	}
	// and what its ghost functions are to see
	var us []string
	for _, g := range ex.opts.Uses {
		us = append(us, g)
	}
	sort.Strings(us)
	csSeen := map[string]bool{}
	for _, l := range cs {
		csSeen[l] = true
	}
	for _, g := range us {
		if f := v.ghost[g]; f != nil {
			_, c := staticLabels(f)
			for _, l := range c {
				if !csSeen[l] {
					cs = append(cs, l)
				}
				csSeen[l] = true
			}
		}
	}
	for _, l := range cs {
		if !ex.covers[l] {
			res.Err = append(res.Err, "vacuous: cover point \""+l+"\" is unreachable")
		}
	}
	if done == 0 {
		anyFail := false
		for _, o := range ex.obls {
			anyFail = anyFail || o.Failed
		}
		if !anyFail {
			res.Err = append(res.Err, "vacuous: no path completes")
		}
	}
	if r.NoPanic != "" && ex.obls[r.NoPanic] == nil {
		// no instruction could panic: count the fact
		ex.obls[r.NoPanic] = &Obl{Label: r.NoPanic, Instances: 1, Backends: map[string]int{"simplifier": 1}}
		ex.order = append(ex.order, r.NoPanic)
	}
	return
}

func labelFor(r *RootOpts, label, prop string) bool {
	if len(label) > 4 && label[0] == 'C' && label[3] == ':' {
		return label[:3] == prop
	}
	// A contract that serves several properties is judged, for locks (C22)
	// and for crashes (C23), by those clauses alone.
	switch prop {
	case "C22":
		return label == r.LockLabel || strings.Contains(label, "lock")
	case "C23":
		if label == r.NoPanic {
			return true
		}
		for _, p := range r.Props {
			if p != "C22" && p != "C23" {
				return false
			}
		}
		return !strings.Contains(label, "lock")
	}
	return true
}

func hasStr(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func main() {
	var prop, only, tier, replay string
	v := &Verifier{fns: map[*ssa.Function]*FnInfo{}}
	flag.StringVar(&v.repo, "repo", "/repo", "repository")
	flag.StringVar(&v.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&prop, "prop", "", "property id")
	flag.StringVar(&only, "only", "", "substring of contract names")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&replay, "replay", "", "")
	flag.BoolVar(&v.debug, "debug", false, "")
	list := flag.Bool("list", false, "")
	nowrite := flag.Bool("n", false, "do not write evidence")
	workers := flag.Int("j", 8, "")
	flag.Parse()
	if os.Getenv("GOVC_PROF") != "" {
		profQ = map[string]int{}
		defer func() {
		}()
	}
	t0 := time.Now()
	if replay != "" {
		out, ok := v.runReplay(replay, nil)
		fmt.Print(out)
		if !ok {
			os.Exit(1)
		}
		return
	}
	v.tier = tier
	v.budget = 150 * time.Second
	if tier == "thorough" {
		v.budget = 700 * time.Second
		v.cross = true
	}
	v.load()
	loadT := time.Since(t0)
	if *list {
		for _, r := range v.roots {
			fmt.Println(r.Name, r.Props)
		}
		for p, e := range v.pkgErrs {
			fmt.Println("ERR", p, e)
		}
		return
	}
	var roots []*RootOpts
	for _, r := range v.roots {
		if prop != "" && !hasStr(r.Props, prop) {
			continue
		}
		if only != "" && !strings.Contains(r.Name, only) {
			continue
		}
		roots = append(roots, r)
	}
	results := make([]*Result, len(roots))
	sem := make(chan struct{}, *workers)
	var wg sync.WaitGroup
	for i, r := range roots {
		wg.Add(1)
		go func(i int, r *RootOpts) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = v.verify(r)
		}(i, r)
	}
	wg.Wait()
	if profQ != nil {
		var ks []string
		for k := range profQ {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return profQ[ks[i]] > profQ[ks[j]] })
		for i := 0; i < 25 && i < len(ks); i++ {
			fmt.Println(profQ[ks[i]], ks[i])
		}
	}
	code := v.report(prop, roots, results, loadT, t0, !*nowrite)
	os.Exit(code)
}

type failure struct {
	Root, Label, Where, Reason string
	Path, Model                []string
}

func (v *Verifier) report(prop string, roots []*RootOpts, results []*Result, loadT time.Duration, t0 time.Time, write bool) int {
	var fails []failure
	nObl, nDis, nClause := 0, 0, 0
	back := map[string]int{}
	externs, models, inlined := map[string]int{}, map[string]int{}, map[string]int{}
	var under []string
	var solver time.Duration
	queries := 0
	var bounded []string
	// contracts that no longer type-check against the source
	for f, e := range v.dropped {
		for _, r := range droppedRoots(filepath.Join(v.verif, "contracts"), v.repo, f) {
			if prop == "" || hasStr(r.Props, prop) {
				fails = append(fails, failure{Root: r.Name, Label: "contract type-checks against the source", Reason: e})
			}
		}
	}
	if len(roots) == 0 && len(fails) == 0 {
		fails = append(fails, failure{Root: prop, Label: "contracts present", Reason: "no contract found"})
	}
	for i, res := range results {
		r := roots[i]
		ex := res.Ex
		for _, e := range res.Err {
			fails = append(fails, failure{Root: r.Name, Label: "exploration complete", Reason: e})
		}
		solver += ex.sol.spent
		queries += ex.sol.nQuery
		if r.Bounded != "" {
			bounded = append(bounded, r.Name+": "+r.Bounded)
		}
		status := "ok"
		no, nd, nMine := 0, 0, 0
		for _, l := range ex.order {
			o := ex.obls[l]
			if prop != "" && !labelFor(r, l, prop) {
				continue
			}
			nClause++
			nMine++
			no += o.Instances
			for b, n := range o.Backends {
				nd += n
				back[b] += n
			}
			if o.Failed {
				status = "FAILED"
				fails = append(fails, failure{r.Name, l, o.Where, o.Reason, o.Path, o.Model})
			}
		}
		if len(res.Err) > 0 {
			status = "INCOMPLETE"
		}
		nObl += no
		nDis += nd
		for k, n := range ex.externs {
			externs[k] += n
		}
		for k, n := range ex.models {
			models[k] += n
		}
		for k, n := range ex.inlined {
			inlined[k] += n
		}
		under = append(under, fmt.Sprintf("%s (%d clauses, %d obligations, %d paths, %.1fs)", r.Name, nMine, no, ex.paths, res.Wall.Seconds()))
		fmt.Printf("%-10s %s: %d/%d obligations, %d paths, %d queries, %.1fs\n", status, r.Name, nd, no, ex.paths, ex.sol.nQuery, res.Wall.Seconds())
		if v.debug {
			for _, k := range sortedKeys(ex.externs) {
				fmt.Println("   extern", k)
			}
			for k, n := range ex.forks {
				if n > 3 {
					fmt.Printf("   fork %6d %s\n", n, k)
				}
			}
			for k, n := range ex.loopNotes {
				fmt.Println("   loop", k, n)
			}
			fmt.Println("   covers", ex.covers)
		}
	}
	var order []string
	if prop == "C22" {
		var f []failure
		order, f = lockOrder(results)
		fails = append(fails, f...)
		nClause, nObl = nClause+1, nObl+1
		if len(f) == 0 {
			nDis++
			back["simplifier"]++
		}
		if v.debug {
			for _, res := range results {
				for e, w := range res.Ex.lockEdges {
					fmt.Println("   order", e.from, "before", e.to, res.Root.Name, w)
				}
			}
		}
	}
	for _, f := range fails {
		fmt.Printf("FAILED %s: [%s] %s %s\n", f.Root, f.Label, f.Where, f.Reason)
		if v.debug {
			for _, p := range f.Path {
				fmt.Println("     ", p)
			}
			for _, p := range f.Model {
				fmt.Println("      model", p)
			}
		}
	}
	code := 0
	if len(fails) > 0 {
		code = 1
	}
	nviol := 0
	if prop != "" && len(fails) > 0 {
		nviol = 1
		path, concrete := v.replay(prop, fails, write)
		if concrete {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	}
	if prop == "" || !write {
		return code
	}
	v.known(prop)
	var fnsUnder []string
	for _, k := range sortedKeys(inlined) {
		fnsUnder = append(fnsUnder, k)
	}
	trusted := []string{"go/packages+go/ssa translation of the Go source (golang.org/x/tools v0.52.0)", "govc VC generator (/verif/govc)", "Z3 (z3-new 5.3.2)", "cvc5 1.1.2 (fallback and cross-check)"}
	var assume []string
	for _, k := range sortedKeys(models) {
		assume = append(assume, "assumed contract (ghost model) for "+k)
	}
	for _, k := range sortedKeys(externs) {
		if strings.HasPrefix(k, "(pure) ") {
			assume = append(assume, "assumed deterministic and effect-free: "+k[7:])
		} else {
			assume = append(assume, "unmodelled, result arbitrary, assumed not to touch verified state: "+k)
		}
	}
	assume = append(assume,
		"integers are mathematical with exact wrap-around at every typed operation",
		"distinct reference parameters and lazily initialised pointers are not aliased unless the contract says so",
		"one goroutine at a time runs between lock operations; scheduling enters through havoc at lock acquisition and channel operations where a contract says so",
		"memory exhaustion and stack overflow are not modelled")
	lvl := "proof"
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"clauses": nClause, "by_backend": back,
		"contracts": under, "functions_verified_through": fnsUnder,
		"checker_cmd":  fmt.Sprintf("%s/check.sh %s %s", v.verif, prop, v.tier),
		"trusted_base": trusted, "solver_seconds": solver.Seconds(), "solver_queries": queries,
		"second_backend_queries": v.nSecond,
	}
	if len(bounded) > 0 {
		cov["bounded_stand_ins_not_counted_as_proved"] = bounded
	}
	if len(order) > 0 {
		cov["lock_order"] = order
	}
	if v.cross {
		agree, unk := 0, 0
		for _, res := range results {
			agree += res.Ex.crossAgree
			unk += res.Ex.crossUnknown
		}
		cov["crosschecked_by_cvc5"] = agree
		cov["crosscheck_unknown"] = unk
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": v.tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(v.verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(v.verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fatal("evidence: %v", err)
	}
	fmt.Printf("property %s: %d clauses, %d/%d obligations discharged, load %.1fs, total %.1fs\n", prop, nClause, nDis, nObl, loadT.Seconds(), time.Since(t0).Seconds())
	return code
}

// known prints the recorded findings of a property.
func (v *Verifier) known(prop string) {
	b, err := os.ReadFile(filepath.Join(v.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "known: "))
		}
	}
}

// replay tries to find a failing input on the real code: it runs the
// concrete driver of the property (/verif/replay/<pkg>/...), an in-package
// test laid over the repository.
func (v *Verifier) replay(prop string, fails []failure, write bool) (string, bool) {
	dir := filepath.Join(v.verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: failed obligations\n", prop)
	for _, f := range fails {
		fmt.Fprintf(&sb, "\n== %s\n   obligation: %s\n   at: %s\n   verifier: %s\n", f.Root, f.Label, f.Where, f.Reason)
		for _, p := range f.Path {
			fmt.Fprintf(&sb, "   path: %s\n", p)
		}
		for _, p := range f.Model {
			fmt.Fprintf(&sb, "   model: %s\n", p)
		}
	}
	concrete := false
	var first []string
	for _, f := range fails {
		first = append(first, strings.Split(f.Root, ".zzv")[0])
	}
	out, ok := v.runReplay(prop, first)
	if out != "" {
		fmt.Fprintf(&sb, "\n== concrete replay on the real code\n%s\n", out)
		concrete = !ok
	}
	if signs := telltale[prop]; signs != "" && !concrete {
		// drivers of the other properties of the contracts that failed
		var tags []string
		for _, f := range fails {
			for _, r := range v.roots {
				if r.Name != f.Root {
					continue
				}
				for _, p := range r.Props {
					if p != prop && telltale[p] == "" && !hasStr(tags, p) {
						tags = append(tags, p)
					}
				}
			}
		}
		t0 := time.Now()
		for _, p := range tags {
			if time.Since(t0) > 200*time.Second {
				break
			}
			out, ok := v.runReplay(p, first)
			if m := regexp.MustCompile(signs).FindString(out); !ok && m != "" {
				fmt.Fprintf(&sb, "\n== concrete replay on the real code, with the inputs of %s: %s\n%s\n", p, m, out)
				concrete = true
				break
			}
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0644)
	return path, concrete
}

// telltale is what a driver of another property prints when a lock stays held
// or the code crashes.
var telltale = map[string]string{
	"C22": `does not end|stays locked|fatal error: (sync: |all goroutines)|panic: (sync: |test timed out)`,
	"C23": `panic: (runtime error|send on|close of|interface conversion|assignment|strings|bytes|reflect|sync)[^\n]*`,
}

var lockWait = regexp.MustCompile(`sync\.\(\*(RW)?Mutex\)\.R?Lock`)

// runReplay executes the drivers, those of the packages first before others
// (these only until one fails); ok is false when one fails on real code.
func (v *Verifier) runReplay(prop string, first []string) (string, bool) {
	base := filepath.Join(v.verif, "replay")
	repl := map[string]string{}
	pkgs := map[string]bool{}
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(base, p)
		mine := bytes.Contains(b, []byte("func TestReplay"+prop))
		if mine || strings.HasPrefix(filepath.Base(p), "common") {
			repl[filepath.Join(v.repo, filepath.Dir(rel), "zzr_"+filepath.Base(rel))] = p
		}
		if mine {
			pkgs["./"+filepath.Dir(rel)] = true
		}
		return nil
	})
	if len(pkgs) == 0 {
		return "", true
	}
	tmp, err := os.MkdirTemp("", "govcreplay")
	if err != nil {
		return "", true
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "ov.json")
	os.WriteFile(ovf, ov, 0644)
	ok := true
	var all strings.Builder
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	mine := func(p string) bool { return hasStr(first, strings.TrimPrefix(p, "./")) }
	sort.Slice(ps, func(i, j int) bool {
		if a, b := mine(ps[i]), mine(ps[j]); a != b {
			return a
		}
		return ps[i] < ps[j]
	})
	t0 := time.Now()
	for _, p := range ps {
		left := 420 - int(time.Since(t0).Seconds())
		if len(first) > 0 && !ok || left < 30 {
			break
		}
		args := []string{"test", "-mod=readonly", "-vet=off", "-count=1", "-failfast", fmt.Sprintf("-timeout=%ds", min(300, left)), "-overlay", ovf, "-run", "^TestReplay" + prop, p}
		cmd := exec.Command("go", args...)
		cmd.Dir = v.repo
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
		out, err := cmd.CombinedOutput()
		s := string(out)
		if len(s) > 6000 {
			i := strings.Index(s, "panic: ")
			if i < 3000 {
				i = 3000
			}
			s = s[:3000] + "...\n" + s[i:]
			if len(s) > 9000 {
				s = s[:9000] + "...\n"
			}
		}
		fmt.Fprintf(&all, "$ go %s\n%s\n", strings.Join(args, " "), s)
		if err != nil && !strings.Contains(string(out), "test timed out after") && !strings.Contains(string(out), "[build failed]") && !strings.Contains(string(out), "[setup failed]") {
			ok = false
		}
		if err != nil && prop == "C22" && strings.Contains(string(out), "test timed out after") && lockWait.Match(out) {
			ok = false
		}
	}
	return all.String(), ok
}

var _ = types.Typ
