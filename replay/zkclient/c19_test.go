package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zzGroups is a client in a group "g" that admin administers; "other" is a
// group of me alone.
type zzGroups struct {
	t            *testing.T
	me, admin    *ZKC
	mem, mem2, x *ZKC // two members and an outsider
}

func zzNewGroups(t *testing.T) *zzGroups {
	g := &zzGroups{t: t, me: zzClient(t, "me"), admin: zzClient(t, "admin"), mem: zzClient(t, "mem"), mem2: zzClient(t, "mem2"), x: zzClient(t, "outsider")}
	for _, p := range []*ZKC{g.admin, g.mem, g.mem2, g.x} {
		zzMeet(t, g.me, p)
	}
	g.put("other", 3, g.me)
	return g
}
func zzIDs(cs ...*ZKC) (out [][32]byte) {
	for _, c := range cs {
		out = append(out, c.id.Public.Identity)
	}
	return
}
func (g *zzGroups) put(name string, gen uint64, cs ...*ZKC) {
	g.t.Helper()
	g.me.Lock()
	defer g.me.Unlock()
	g.me.groups[name] = rpc.GroupList{Name: name, Generation: gen, Members: zzIDs(cs...)}
	if err := g.me._gcSaveDisk(name); err != nil {
		g.t.Fatal(err)
	}
}
func (g *zzGroups) dir() string { return filepath.Join(g.me.settings.Root, groupchatDir) }

// get returns the groups in use; they must be those on disk.
func (g *zzGroups) get(what string) map[string]rpc.GroupList {
	g.t.Helper()
	g.me.Lock()
	defer g.me.Unlock()
	out, disk := map[string]rpc.GroupList{}, map[string]rpc.GroupList{}
	for k, v := range g.me.groups {
		if k != v.Name {
			g.t.Errorf("%v: group %q is kept as %q", what, v.Name, k)
		}
		v.Members = append([][32]byte{}, v.Members...)
		out[k] = v
	}
	for f, b := range zzTree(g.dir()) {
		if strings.Contains(f, ".") {
			continue // invitations
		}
		var l rpc.GroupList
		if _, err := xdr.Unmarshal(strings.NewReader(b), &l); err != nil {
			g.t.Errorf("%v: file of group %v: %v", what, f, err)
		}
		l.Members = append([][32]byte{}, l.Members...)
		disk[f] = l
	}
	if !reflect.DeepEqual(out, disk) {
		g.t.Errorf("%v: the groups in use are not those on disk:\n%v\n%v", what, out, disk)
	}
	return out
}

// kept checks that a step changes no group.
func (g *zzGroups) kept(what string, f func()) {
	g.t.Helper()
	was := g.get(what)
	zzTrap(g.t, what, f)
	if now := g.get(what); !reflect.DeepEqual(was, now) {
		g.t.Errorf("%v: changes groups from\n%v to\n%v", what, was, now)
	}
}

// broken runs f while no group can be saved.
func (g *zzGroups) broken(f func()) {
	g.t.Helper()
	if err := os.Rename(g.dir(), g.dir()+"away"); err != nil {
		g.t.Skip(err)
	}
	f()
	os.RemoveAll(g.dir())
	if err := os.Rename(g.dir()+"away", g.dir()); err != nil {
		g.t.Fatal(err)
	}
}

// told checks who was sent something about the group.
func (g *zzGroups) told(what string, cs ...*ZKC) []zzOut {
	g.t.Helper()
	out := zzSent(g.me)
	n := map[[32]byte]int{}
	for _, o := range out {
		n[o.to]++
	}
	for _, c := range cs {
		if n[c.id.Public.Identity] != 1 {
			g.t.Errorf("%v: %v is told %v times", what, c.id.Public.Nick, n[c.id.Public.Identity])
		}
		delete(n, c.id.Public.Identity)
	}
	if len(n) != 0 {
		g.t.Errorf("%v: others are told", what)
	}
	return out
}

func (g *zzGroups) is(what string, gen uint64, cs ...*ZKC) {
	g.t.Helper()
	now, ok := g.get(what)["g"]
	if !ok || !reflect.DeepEqual(now.Members, zzIDs(cs...)) || now.Generation != gen && gen != 0 {
		g.t.Errorf("%v: the group is %v", what, now)
	}
}

func TestReplayC19Messages(t *testing.T) {
	g := zzNewGroups(t)
	g.put("g", 5, g.admin, g.me, g.mem)
	n := 0
	say := func(from *ZKC, group string, gen uint64, want bool) {
		t.Helper()
		n++
		text := fmt.Sprintf("unique-%v-", n)
		g.kept(text, func() { zzTell(t, from, g.me, rpc.GroupMessage{Name: group, Generation: gen, Message: text}) })
		w := zzShows(g.me, text)
		if want != (len(w) != 0) || len(w) > 1 || want && (w[0].nick != group || !w[0].group) {
			t.Errorf("message of %v to %v is shown in %v windows", from.id.Public.Nick, group, len(w))
		}
	}
	say(g.x, "g", 5, false)
	say(g.admin, "g", 5, true)
	say(g.mem, "g", 5, true)
	say(g.mem2, "g", 5, false)
	say(g.x, "g", 5, false)
	say(g.mem, "other", 3, false)
	say(g.mem, "nothing", 0, false)
	say(g.mem, "", 0, false)
	// a kicked member
	if err := zzTell(t, g.admin, g.me, rpc.GroupKick{Member: g.mem.id.Public.Identity, NewGroupList: rpc.GroupList{Name: "g", Generation: 6, Members: zzIDs(g.admin, g.me)}}); err != nil {
		t.Fatal(err)
	}
	g.is("kick", 6, g.admin, g.me)
	say(g.mem, "g", 5, false)
	say(g.mem, "g", 6, false)
	say(g.admin, "g", 6, true)
	// a group with an empty list
	g.put("g", 7)
	for _, p := range []*ZKC{g.admin, g.mem, g.x} {
		say(p, "g", 7, false)
	}
}

func TestReplayC19Lists(t *testing.T) {
	g := zzNewGroups(t)
	id := func(c *ZKC) [32]byte { return c.id.Public.Identity }
	// every kind of message that carries a list
	kinds := []func(l rpc.GroupList) interface{}{
		func(l rpc.GroupList) interface{} { return l },
		func(l rpc.GroupList) interface{} { return rpc.GroupUpdate{NewGroupList: l} },
		func(l rpc.GroupList) interface{} { return rpc.GroupKick{Member: id(g.mem2), NewGroupList: l} },
		func(l rpc.GroupList) interface{} {
			return rpc.GroupKick{Member: id(g.mem), Parted: true, NewGroupList: l}
		},
	}
	list := func(gen uint64, cs ...*ZKC) rpc.GroupList {
		return rpc.GroupList{Name: "g", Generation: gen, Members: zzIDs(cs...)}
	}
	for k, mk := range kinds {
		g.put("g", 5, g.admin, g.me, g.mem)
		what := fmt.Sprintf("kind %v", k)
		for _, p := range []*ZKC{g.mem, g.mem2, g.x} {
			for _, l := range []rpc.GroupList{list(6, g.admin, g.me), list(6, p, g.me), list(6, g.me, p), list(6), list(5, g.admin), {Name: "other", Generation: 9, Members: zzIDs(p, g.me)}} {
				g.kept(what+" of someone else", func() { zzTell(t, p, g.me, mk(l)) })
			}
		}
		for _, l := range []rpc.GroupList{list(4, g.admin, g.me), list(0, g.admin, g.me, g.x), list(6, g.me, g.admin), list(6, g.mem, g.admin, g.me), list(6),
			{Name: "other", Generation: 9, Members: zzIDs(g.admin, g.me)}, {Name: "new", Generation: 9, Members: zzIDs(g.admin, g.me)}} {
			g.kept(what+" refused", func() { zzTell(t, g.admin, g.me, mk(l)) })
		}
		g.kept(what+" that can not be saved", func() {
			g.broken(func() { zzTell(t, g.admin, g.me, mk(list(7, g.admin, g.me, g.x))) })
		})
		zzTell(t, g.admin, g.me, mk(list(6, g.admin, g.me, g.x)))
		g.is(what, 6, g.admin, g.me, g.x)
	}
	// what a refused list would change is not shown
	g.put("g", 5, g.admin, g.me, g.mem)
	zzDrawn()
	before := len(zzLines(g.me.conversation[0]))
	for _, p := range []*ZKC{g.x, g.mem, g.admin} {
		zzTell(t, p, g.me, list(4, g.admin, g.me))
		zzTell(t, p, g.me, rpc.GroupUpdate{NewGroupList: list(4, g.admin, g.me)})
	}
	for _, l := range zzLines(g.me.conversation[0])[before:] {
		if strings.Contains(l, "mem") && !strings.Contains(l, "member") {
			t.Errorf("shown of a refused list: %v", l)
		}
	}
	// kill
	for _, p := range []*ZKC{g.mem, g.mem2, g.x} {
		g.kept("kill of someone else", func() { zzTell(t, p, g.me, rpc.GroupKill{Name: "g"}) })
	}
	g.kept("kill of the wrong group", func() { zzTell(t, g.admin, g.me, rpc.GroupKill{Name: "other"}) })
	// a kick of me by others
	for _, p := range []*ZKC{g.mem, g.mem2, g.x} {
		g.kept("kick of someone else", func() {
			zzTell(t, p, g.me, rpc.GroupKick{Member: id(g.me), NewGroupList: list(6, g.admin, g.mem)})
		})
	}
	zzTell(t, g.admin, g.me, rpc.GroupKill{Name: "g"})
	if _, ok := g.get("kill")["g"]; ok {
		t.Error("a group that was dissolved is kept")
	}
	g.put("g", 5, g.admin, g.me, g.mem)
	zzTell(t, g.admin, g.me, rpc.GroupKick{Member: id(g.me), NewGroupList: list(6, g.admin, g.mem)})
	if _, ok := g.get("kick")["g"]; ok {
		t.Error("a group that I was kicked of is kept")
	}
	for _, p := range []*ZKC{g.admin, g.x} {
		for _, mk := range kinds {
			g.kept("unknown group", func() { zzTell(t, p, g.me, mk(list(9, p, g.me))) })
		}
	}
	// an administrator without a list
	g.put("g", 5)
	for _, mk := range kinds {
		g.kept("group without members", func() { zzTell(t, g.admin, g.me, mk(list(9, g.admin, g.me))) })
	}
}

func TestReplayC19Parts(t *testing.T) {
	g := zzNewGroups(t)
	g.put("g", 5, g.me, g.mem, g.mem2)
	g.kept("part of an outsider", func() { zzTell(t, g.x, g.me, rpc.GroupPart{Name: "g"}) })
	g.told("part of an outsider")
	g.kept("part that can not be saved", func() {
		g.broken(func() { zzTell(t, g.mem, g.me, rpc.GroupPart{Name: "g"}) })
	})
	g.told("part that can not be saved")
	zzTell(t, g.mem, g.me, rpc.GroupPart{Name: "g"})
	g.is("part", 6, g.me, g.mem2)
	for _, o := range g.told("part", g.mem, g.mem2) {
		k, ok := o.payload.(rpc.GroupKick)
		if !ok || k.Member != g.mem.id.Public.Identity || !reflect.DeepEqual(k.NewGroupList.Members, zzIDs(g.me, g.mem2)) || k.NewGroupList.Generation != 6 {
			t.Errorf("a part is told as %v", o.payload)
		}
	}
	g.kept("second part", func() { zzTell(t, g.mem, g.me, rpc.GroupPart{Name: "g"}) })
	g.put("g", 5, g.admin, g.me, g.mem)
	g.kept("part told to a member", func() { zzTell(t, g.mem, g.me, rpc.GroupPart{Name: "g"}) })
	g.kept("part of the administrator", func() { zzTell(t, g.admin, g.me, rpc.GroupPart{Name: "g"}) })
	g.told("part told to a member")
}

func TestReplayC19Joins(t *testing.T) {
	g := zzNewGroups(t)
	invite := func(nick, group string) rpc.GroupInvite {
		t.Helper()
		if err := g.me.gcInvite([]string{"/gc", "invite", group, nick}); err != nil {
			t.Fatal(err)
		}
		for _, o := range zzSent(g.me) {
			if gi, ok := o.payload.(rpc.GroupInvite); ok {
				return gi
			}
		}
		t.Fatal("no invitation")
		return rpc.GroupInvite{}
	}
	join := func(from *ZKC, name string, tok uint64) {
		zzTell(t, from, g.me, rpc.GroupJoin{Name: name, Token: tok})
	}
	g.put("g", 5, g.me, g.mem)
	g.kept("join without an invitation", func() { join(g.x, "g", 0) })
	a, o := invite("mem2", "g"), invite("outsider", "other")
	for _, tok := range []uint64{0, a.Token + 1, o.Token, ^uint64(0)} {
		if tok == a.Token {
			continue
		}
		g.kept("join with another token", func() { join(g.mem2, "g", tok) })
	}
	g.kept("join with the invitation of another", func() { join(g.x, "g", a.Token) })
	g.kept("join of another group", func() { join(g.mem2, "other", a.Token) })
	g.kept("join of another group", func() { join(g.x, "g", o.Token) })
	g.told("refused joins")
	join(g.mem2, "g", a.Token)
	g.is("join", 0, g.me, g.mem, g.mem2)
	now := g.get("join")["g"]
	if now.Generation <= 5 {
		t.Errorf("join: generation %v follows 5", now.Generation)
	}
	for _, o := range g.told("join", g.mem, g.mem2) {
		l, ok := o.payload.(rpc.GroupList)
		if gl, is := o.payload.(rpc.GroupUpdate); is {
			l, ok = gl.NewGroupList, true
		}
		if ok && !reflect.DeepEqual(l, now) {
			t.Errorf("join: members are told %v of %v", l, now)
		}
	}
	g.kept("second join", func() { join(g.mem2, "g", a.Token) })
	zzTell(t, g.mem2, g.me, rpc.GroupPart{Name: "g"})
	zzSent(g.me)
	g.kept("join with a used invitation", func() { join(g.mem2, "g", a.Token) })
	g.told("join with a used invitation")
	// I am not the administrator
	g.put("g", 5, g.admin, g.me)
	g.kept("join told to a member", func() { join(g.mem2, "g", a.Token) })
	// the other way round
	zzTell(t, g.admin, g.me, rpc.GroupInvite{Name: "fresh", Token: 77, Expires: 1 << 40})
	zzTell(t, g.mem, g.me, rpc.GroupInvite{Name: "fresh2", Token: 78, Expires: 1 << 40})
	for _, x := range [][]string{{"fresh", "78"}, {"fresh2", "77"}, {"fresh3", "77"}, {"fresh", "0"}, {"g", "77"}, {"other", "77"}} {
		g.kept("joining without invitation", func() { g.me.gcJoin([]string{"/gc", "join", x[0], x[1]}) })
	}
	g.told("joining without invitation")
	if err := g.me.gcJoin([]string{"/gc", "join", "fresh", "77"}); err != nil {
		t.Fatal(err)
	}
	if n := g.get("joining")["fresh"]; !reflect.DeepEqual(n.Members, zzIDs(g.admin)) {
		t.Errorf("joined group: %v", n)
	}
	g.told("joining", g.admin)
}

func TestReplayC19Commands(t *testing.T) {
	g := zzNewGroups(t)
	cmd := func(s string) error { return g.me.gc(s, strings.Split(s, " ")) }
	// not the administrator
	g.put("g", 5, g.admin, g.me, g.mem)
	for _, s := range []string{"/gc kick g mem", "/gc kick g admin", "/gc invite g outsider", "/gc kill g", "/gc kick nothing mem", "/gc kill nothing", "/gc invite nothing mem", "/gc new g", "/gc new a/b"} {
		g.kept(s, func() {
			if cmd(s) == nil {
				t.Errorf("%v is carried out", s)
			}
		})
		g.told(s)
	}
	g.kept("part", func() { cmd("/gc part g") })
	g.told("part", g.admin)
	g.kept("message", func() { cmd("/gc m g hello there") })
	for _, o := range g.told("message", g.admin, g.mem) {
		m, ok := o.payload.(rpc.GroupMessage)
		if !ok || m.Name != "g" || m.Message != "hello there" || m.Generation != 5 {
			t.Errorf("message is sent as %v", o.payload)
		}
	}
	// the administrator
	g.put("g", 5, g.me, g.mem, g.mem2, g.admin)
	g.kept("part of the administrator", func() { cmd("/gc part g") })
	g.kept("kick of the administrator", func() { cmd("/gc kick g me") })
	g.kept("invitation of a member", func() { cmd("/gc invite g mem") })
	g.told("refused")
	g.kept("kick that can not be saved", func() { g.broken(func() { cmd("/gc kick g mem") }) })
	g.told("kick that can not be saved")
	if err := cmd("/gc kick g mem2"); err != nil {
		t.Fatal(err)
	}
	g.is("kick", 6, g.me, g.mem, g.admin)
	for _, o := range g.told("kick", g.mem, g.mem2, g.admin) {
		k, ok := o.payload.(rpc.GroupKick)
		if !ok || k.Member != g.mem2.id.Public.Identity || !reflect.DeepEqual(k.NewGroupList.Members, zzIDs(g.me, g.mem, g.admin)) || k.NewGroupList.Generation != 6 {
			t.Errorf("a kick is told as %v", o.payload)
		}
	}
	if err := cmd("/gc kill g"); err != nil {
		t.Fatal(err)
	}
	if _, ok := g.get("kill")["g"]; ok {
		t.Error("a group that was dissolved is kept")
	}
	g.told("kill", g.mem, g.admin)
	g.broken(func() {
		if cmd("/gc new fresh") == nil {
			t.Error("a group that can not be saved is created")
		}
	})
	if _, ok := g.get("new")["fresh"]; ok {
		t.Error("a group that can not be saved is kept")
	}
	if err := cmd("/gc new fresh"); err != nil {
		t.Fatal(err)
	}
	if n := g.get("new")["fresh"]; !reflect.DeepEqual(n.Members, zzIDs(g.me)) {
		t.Errorf("new group: %v", n)
	}
}
