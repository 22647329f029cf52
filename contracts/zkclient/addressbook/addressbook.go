package addressbook

import (
	"encoding/hex"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

// Representation invariant: the entry listed under nick k calls itself k, and
// no two keys hold the same identity.  zzvAdd and zzvDel show, at two arbitrary
// keys, that every operation that changes the book keeps it.
func zzInv(a *AddressBook) {
	zzv.Assume(a.identities != nil)
	zzv.KeyedBy(a.identities, "Nick")
	zzv.DistinctBy(a.identities, "Identity")
}

//@ verify C21 C22 C23 nopanic locks
//@ opt guard=addressbook.AddressBook.identities/RWMutex
func zzvAdd(a *AddressBook, id zkidentity.PublicIdentity, k, k2 string) {
	zzInv(a)
	o, had := a.identities[k]
	_, _ = a.identities[k2]
	asked := id.Nick
	n, err := a.Add(id)
	got, ok := a.identities[n]
	zzv.Assert("the identity is listed under the returned nick", ok && got.Nick == n && got.Identity == id.Identity)
	want := id
	want.Nick = n
	zzv.Assert("the entry is exactly the identity that was added", ok && got == want)
	zzv.Assert("a changed nick is reported", err != nil || n == asked)
	zzv.Assert("the only error is a duplicate nick", err == nil || err == ErrDuplicateNick)
	e, ok1 := a.identities[k]
	e2, ok2 := a.identities[k2]
	if k != n {
		if had && o.Identity != id.Identity {
			zzv.Assert("another identity keeps its entry", ok1 && e == o)
			zzv.Reach("kept")
		} else {
			zzv.Assert("the identity is listed at most once", !ok1)
			zzv.Reach("once")
		}
	} else if had {
		zzv.Assert("no other identity is replaced", o.Identity == id.Identity)
		zzv.Reach("renewed")
	}
	if ok1 && ok2 && k != k2 {
		zzv.Assert("two nicks never show the same identity", e.Identity != e2.Identity)
		zzv.Reach("two")
	}
	zzv.Assert("every entry shows the nick it is listed under", !ok1 || e.Nick == k)
	f, ferr := a.FindNick(n)
	zzv.Assert("the nick finds the identity that was added", ferr == nil && *f == want)
	zzv.Reach("end")
}

// The nick is the requested one with as many underscores as are taken.
//@ verify C21 nopanic bounded="at most 1 underscore is appended" unroll=2
func zzvAddNick(a *AddressBook, id zkidentity.PublicIdentity) {
	zzv.Assume(a.identities != nil)
	u := zzv.ChooseInt(0, 1)
	want := id.Nick
	for i := 0; i < u; i++ {
		e, ok := a.identities[want]
		zzv.Assume(ok && e.Identity != id.Identity)
		want += "_"
	}
	e, ok := a.identities[want]
	zzv.Assume(!ok || e.Identity == id.Identity)
	n, err := a.Add(id)
	zzv.Assert("the first free nick is used", n == want)
	zzv.Assert("a changed nick, and only that, is reported", (err == ErrDuplicateNick) == (u > 0) && (err == nil) == (u == 0))
	zzv.Reach("end")
}

//@ verify C21 C22 C23 nopanic locks
//@ opt guard=addressbook.AddressBook.identities/RWMutex
func zzvDel(a *AddressBook, id [zkidentity.IdentitySize]byte, k, k2 string) {
	zzInv(a)
	o, had := a.identities[k]
	_, _ = a.identities[k2]
	err := a.Del(id)
	e, ok := a.identities[k]
	if had && o.Identity == id {
		zzv.Reach("listed")
		zzv.Assert("deleting a listed identity succeeds", err == nil)
		zzv.Assert("a deleted identity is not listed", !ok)
	}
	if had && o.Identity != id {
		zzv.Assert("other entries stay", ok && e == o)
		zzv.Reach("other")
	}
	zzv.Assert("deleting adds nothing", had || !ok)
	e2, ok2 := a.identities[k2]
	if ok && ok2 && k != k2 {
		zzv.Assert("two nicks never show the same identity", e.Identity != e2.Identity)
	}
	zzv.Assert("every entry shows the nick it is listed under", !ok || e.Nick == k)
	if err == nil {
		zzv.Reach("deleted")
	} else {
		zzv.Assert("an unlisted identity is reported", err == ErrNotFound)
		zzv.Assert("a failed deletion changes nothing", ok == had && (!had || (e == o && o.Identity != id)))
		zzv.Reach("unlisted")
	}
}

//@ verify C21 C22 C23 nopanic locks
//@ opt guard=addressbook.AddressBook.identities/RWMutex
func zzvFindNick(a *AddressBook, nick string) {
	o, had := a.identities[nick]
	old := zzv.Snap(a)
	p, err := a.FindNick(nick)
	if had {
		zzv.Assert("a listed nick finds exactly its entry", err == nil && p != nil && *p == o)
		zzv.Reach("found")
	} else {
		zzv.Assert("an unlisted nick is not found", err == ErrNotFound && p == nil)
		zzv.Reach("missing")
	}
	zzv.Assert("looking up changes nothing", zzv.Same(a, old))
}

//@ verify C21 C22 C23 nopanic locks
//@ opt guard=addressbook.AddressBook.identities/RWMutex
func zzvFindIdentity(a *AddressBook, id [zkidentity.IdentitySize]byte, k string) {
	zzInv(a)
	o, had := a.identities[k]
	old := zzv.Snap(a)
	p, err := a.FindIdentity(id)
	if had && o.Identity == id {
		zzv.Assert("a listed identity finds exactly its entry", err == nil && *p == o)
		zzv.Reach("listed")
	}
	if err == nil {
		zzv.Assert("the entry found is the identity asked for", p != nil && p.Identity == id)
		zzv.Reach("found")
	} else {
		zzv.Assert("an identity that is not found is not listed", err == ErrNotFound && p == nil && !(had && o.Identity == id))
		zzv.Reach("missing")
	}
	zzv.Assert("looking up changes nothing", zzv.Same(a, old))
}

//@ verify C21 C23 nopanic
func zzvFindIdentityS(a *AddressBook, s string) {
	x, derr := hex.DecodeString(s)
	p, err := a.FindIdentityS(s)
	if derr != nil || len(x) != zkidentity.IdentitySize {
		zzv.Assert("a malformed identity is refused", err == ErrInvalidID && p == nil)
		zzv.Reach("malformed")
		return
	}
	var want [zkidentity.IdentitySize]byte
	copy(want[:], x)
	if err == nil {
		zzv.Assert("the entry found is the identity asked for", p.Identity == want)
		zzv.Reach("found")
	} else {
		zzv.Assert("an unlisted identity is not found", err == ErrNotFound && p == nil)
		zzv.Reach("missing")
	}
}

//@ verify C21 C22 nopanic locks bounded="at most 3 entries" unroll=4
//@ opt guard=addressbook.AddressBook.identities/RWMutex
func zzvAll() {
	a := New()
	var want [3]zkidentity.PublicIdentity
	c := zzv.ChooseInt(0, 3)
	for i := 0; i < c; i++ {
		zzv.Havoc(&want[i])
		for j := 0; j < i; j++ {
			zzv.Assume(want[i].Nick != want[j].Nick)
		}
		a.identities[want[i].Nick] = want[i]
	}
	l := a.All()
	zzv.Assert("every entry is listed once", len(l) == c)
	for i := 0; i < c; i++ {
		n := 0
		for j := 0; j < len(l); j++ {
			if l[j] == want[i] {
				n++
			}
		}
		zzv.Assert("exactly the entries are listed", n == 1)
	}
	zzv.Reach("end")
}
