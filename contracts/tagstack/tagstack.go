package tagstack

import "github.com/companyzero/zkc/zzv"

// The lock invariant of a non-blocking stack, instantiated at arbitrary
// indices i and j:
//   0 <= at <= len(stack); the tags in stack[:at] are pairwise distinct,
//   below the depth, and not held by any caller.
// "held" is an arbitrary predicate for every lock epoch; mine is a tag this
// goroutine holds.  The hooks let every other goroutine run: when the lock is
// taken the protected state is arbitrary within the invariant, when it is
// released the invariant must hold again and the state becomes arbitrary.

type zzGhost struct {
	s    *TagStack
	i, j int
	mine uint32
	has  bool

	locked   bool // the lock was taken once
	unlocked bool
	at0, at1 int
	epoch    int // at the time the lock was taken
	remI     uint32
	remOK    bool
}

var zzg zzGhost
var zzEpoch int

func zzHeld(x uint32) bool {
	return zzv.Or(zzv.And(zzg.has, x == zzg.mine), zzv.UFBool("held", zzEpoch, x))
}

func zzAssumeInv(s *TagStack, i, j int) {
	if i >= 0 && i < s.at {
		zzv.Assume(int(s.stack[i]) < len(s.stack))
		zzv.Assume(!zzHeld(s.stack[i]))
		if j >= 0 && j < s.at && i != j {
			zzv.Assume(s.stack[i] != s.stack[j])
		}
	}
}

func zzAny(s *TagStack) {
	n := len(s.stack)
	zzv.Havoc(&s.at)
	zzv.Havoc(&s.stack)
	zzv.Assume(len(s.stack) == n && s.at >= 0 && s.at <= n)
	zzEpoch++
	if zzg.has { // what this goroutine holds nobody else holds
		zzv.Assume(!zzv.UFBool("held", zzEpoch, zzg.mine))
	}
}

func zzLock(s *TagStack) {
	if s != zzg.s {
		return
	}
	zzv.Assert("the lock is taken once", !zzg.locked)
	zzg.locked = true
	zzAny(s)
	zzAssumeInv(s, zzg.i, zzg.j)
	zzAssumeInv(s, zzg.j, zzg.i)
	zzAssumeInv(s, s.at-1, zzg.i)
	zzAssumeInv(s, s.at-1, zzg.j)
	zzg.at0 = s.at
	zzg.epoch = zzEpoch
}

func zzUnlock(s *TagStack) {
	if s != zzg.s {
		return
	}
	zzg.unlocked = true
	zzg.at1 = s.at
	if s.at == zzg.at0+1 {
		zzg.has = false // returned
	}
	i, j := zzg.i, zzg.j
	zzv.Assert("the stack index stays in range", s.at >= 0 && s.at <= len(s.stack))
	if i >= 0 && i < s.at {
		zzg.remI, zzg.remOK = s.stack[i], true
		zzv.Assert("available tags are below the depth", int(s.stack[i]) < len(s.stack))
		zzv.Assert("a held tag is not available", !zzHeld(s.stack[i]))
		if j >= 0 && j < s.at && i != j {
			zzv.Assert("available tags are distinct", s.stack[i] != s.stack[j])
		}
	}
	zzAny(s)
}

func zzBegin(s *TagStack, i, j int) {
	zzg = zzGhost{s: s, i: i, j: j}
	zzv.Assume(!s.blocking && zzv.LockState(&s.Mutex) != 1)
	zzv.Assume(len(s.stack) < 1<<31)
}

//@ verify C11 C23 C22 nopanic locks
//@ opt guard=tagstack.TagStack.at/Mutex
//@ use lock tagstack.TagStack.Mutex := zzLock
//@ use unlock tagstack.TagStack.Mutex := zzUnlock
func zzvPop(s *TagStack, i, j int) {
	zzBegin(s, i, j)
	n := len(s.stack)
	t, err := s.Pop()
	zzv.Assert("the lock is released", zzg.unlocked)
	if err != nil {
		zzv.Assert("taking a tag fails exactly when none is available", err == ErrUnderflow && zzg.at0 == 0)
		zzv.Assert("a failed operation changes nothing", zzg.at1 == zzg.at0)
		zzv.Reach("underflow")
		return
	}
	zzv.Assert("taking a tag fails when none is available", zzg.at0 > 0)
	zzv.Assert("one tag is taken", zzg.at1 == zzg.at0-1)
	zzv.Assert("the tag is below the depth", int(t) < n)
	zzv.Assert("the tag was not held by anyone", !zzv.UFBool("held", zzg.epoch, t))
	zzv.Assert("the tag is no longer available", !zzg.remOK || zzg.remI != t)
	zzv.Reach("ok")
}

//@ verify C11 C23 C22 nopanic locks
//@ opt guard=tagstack.TagStack.at/Mutex
//@ use lock tagstack.TagStack.Mutex := zzLock
//@ use unlock tagstack.TagStack.Mutex := zzUnlock
func zzvPush(s *TagStack, i, j int, x uint32) {
	zzBegin(s, i, j)
	n := len(s.stack)
	zzv.Assume(int(x) < n)
	zzg.mine, zzg.has = x, true
	err := s.Push(x)
	zzv.Assert("the lock is released", zzg.unlocked)
	if err != nil {
		zzv.Assert("returning a tag fails exactly when all are available", err == ErrOverflow && zzg.at0 == n)
		zzv.Assert("a failed operation changes nothing", zzg.at1 == zzg.at0)
		zzv.Reach("overflow")
		return
	}
	zzv.Assert("one tag is returned", zzg.at1 == zzg.at0+1 && zzg.at0 < n)
	zzv.Assert("the returned tag is available at the top", zzg.i != zzg.at0 || (zzg.remOK && zzg.remI == x))
	zzv.Reach("ok")
}

// A new stack holds every tag below the depth once.
//@ verify C11 nopanic bounded="new stacks of depth at most 40" unroll=50
func zzvNew(i int) {
	depth := zzv.ChooseInt(0, 40)
	s := New(depth)
	zzv.Assert("a new stack is full", s.at == depth && len(s.stack) == depth && !s.blocking && s.Depth() == depth)
	if i >= 0 && i < depth {
		zzv.Assert("a new stack holds tag i at index i", s.stack[i] == uint32(i))
		zzv.Reach("element")
	}
	zzv.Reach("end")
}

// Blocking stacks: the tags 0..depth-1 are queued once; the channel hands
// each queued tag to one receiver.
var zzSent int

func zzSend(c chan uint32, v uint32) {
	zzv.Assert("tags are queued in order, each once", int(v) == zzSent)
	zzSent++
}

//@ verify C11 nopanic bounded="new blocking stacks of depth at most 40" unroll=50
//@ use send uint32 := zzSend
func zzvNewBlocking() {
	depth := zzv.ChooseInt(0, 40)
	zzSent = 0
	s := NewBlocking(depth)
	zzv.Assert("exactly depth tags are queued", zzSent == depth && cap(s.stackC) == depth && s.blocking)
	zzv.Reach("end")
}

// take and return of a blocking stack.
//@ verify C11 C23 nopanic chanblock
func zzvBlocking(a, b, c uint32) {
	s := &TagStack{stackC: make(chan uint32, 2), blocking: true}
	zzv.Assert("returning succeeds", s.Push(a) == nil && s.Push(b) == nil && s.Depth() == 2)
	zzv.Assert("returning more tags than taken fails", s.Push(c) == ErrOverflow && s.Depth() == 2)
	x, err := s.Pop()
	y, err2 := s.Pop()
	zzv.Assert("the tags come out once each", err == nil && err2 == nil && ((x == a && y == b) || (x == b && y == a)) && s.Depth() == 0)
	zzv.Assert("returning again succeeds", s.Push(x) == nil)
	z, err := s.Pop()
	zzv.Assert("a returned tag comes out again", err == nil && z == x)
	zzv.Reach("end")
}
