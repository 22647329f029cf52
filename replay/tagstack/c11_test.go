package tagstack

import (
	mrand "math/rand"
	"sync"
	"testing"
	"time"
)

func rgWithin(t *testing.T, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			t.Fatalf("%s panics: %v", what, e)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%s blocks", what)
	}
}

func TestReplayC11Sequences(t *testing.T) {
	for depth := 0; depth < 40; depth++ {
		for seed := int64(0); seed < 8; seed++ {
			g := mrand.New(mrand.NewSource(seed))
			rgWithin(t, "sequence of takes and returns", func() {
				s := New(depth)
				out := map[uint32]bool{}
				var order []uint32
				bias := 1 + g.Intn(5)
				for i := 0; i < 400; i++ {
					if s.Depth() != depth {
						t.Errorf("depth changes")
						return
					}
					if g.Intn(6) >= bias {
						x, err := s.Pop()
						if (err == nil) != (len(out) < depth) {
							t.Errorf("depth %d, %d outstanding: take returns %v", depth, len(out), err)
							return
						}
						if err != nil {
							continue
						}
						if out[x] || int(x) >= depth {
							t.Errorf("depth %d: tag %d is outstanding or beyond the depth", depth, x)
							return
						}
						out[x] = true
						order = append(order, x)
					} else {
						if len(out) == 0 {
							if s.Push(uint32(g.Intn(depth+1))) == nil {
								t.Errorf("depth %d: more returned than taken", depth)
								return
							}
							continue
						}
						k := g.Intn(len(order))
						x := order[k]
						order = append(order[:k], order[k+1:]...)
						delete(out, x)
						if err := s.Push(x); err != nil {
							t.Errorf("return refused: %v", err)
							return
						}
					}
				}
			})
		}
	}
}

// after failed operations the stack still hands out exactly its tags.
func TestReplayC11Failed(t *testing.T) {
	for depth := 0; depth < 20; depth++ {
		rgWithin(t, "failed operations", func() {
			s := New(depth)
			for i := 0; i < 3; i++ {
				if s.Push(7) == nil {
					t.Error("return to a full stack")
				}
			}
			for r := 0; r < 3; r++ {
				seen := map[uint32]bool{}
				for i := 0; i < depth; i++ {
					x, err := s.Pop()
					if err != nil || seen[x] || int(x) >= depth {
						t.Errorf("depth %d: take %d after failed operations: %v %v", depth, i, x, err)
						return
					}
					seen[x] = true
				}
				for i := 0; i < 3; i++ {
					if _, err := s.Pop(); err == nil {
						t.Error("take from an empty stack")
					}
				}
				for i := 0; i < depth; i++ {
					if s.Push(uint32(i)) != nil {
						t.Error("return refused")
					}
				}
				if s.Push(0) == nil {
					t.Error("more returned than taken")
				}
			}
		})
	}
}

func TestReplayC11Concurrent(t *testing.T) {
	for _, blocking := range []bool{false, true} {
		const depth = 8
		s := New(depth)
		if blocking {
			s = NewBlocking(depth)
		}
		var mu sync.Mutex
		out := map[uint32]bool{}
		bad := ""
		rgWithin(t, "concurrent takes and returns", func() {
			var wg sync.WaitGroup
			for w := 0; w < 16; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 20000; i++ {
						x, err := s.Pop()
						if err != nil {
							continue
						}
						mu.Lock()
						if out[x] || x >= depth {
							bad = "a tag is handed out twice or beyond the depth"
						}
						out[x] = true
						mu.Unlock()
						mu.Lock()
						delete(out, x)
						mu.Unlock()
						if s.Push(x) != nil {
							mu.Lock()
							bad = "return refused"
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
		})
		if bad != "" {
			t.Fatal(bad)
		}
	}
}

func TestReplayC11Blocking(t *testing.T) {
	for depth := 1; depth < 20; depth++ {
		rgWithin(t, "blocking stack", func() {
			s := NewBlocking(depth)
			seen := map[uint32]bool{}
			for i := 0; i < depth; i++ {
				x, err := s.Pop()
				if err != nil || seen[x] || int(x) >= depth {
					t.Errorf("blocking depth %d: take %d: %v %v", depth, i, x, err)
					return
				}
				seen[x] = true
			}
			got := make(chan uint32, 1)
			go func() { x, _ := s.Pop(); got <- x }()
			select {
			case <-got:
				t.Error("blocking take from an empty stack returns")
			case <-time.After(5 * time.Millisecond):
			}
			s.Push(3)
			if x := <-got; x != 3 {
				t.Error("blocking take returns another tag")
			}
		})
	}
}

// Returning to a full blocking stack fails at once and changes nothing.
func TestReplayC11BlockingFull(t *testing.T) {
	for _, depth := range []int{1, 2, 5, 32} {
		s := NewBlocking(depth)
		done := make(chan error, 1)
		for _, x := range []uint32{0, uint32(depth) - 1, uint32(depth)} {
			go func() { done <- s.Push(x) }()
			select {
			case err := <-done:
				if err == nil {
					t.Fatalf("depth %d: a tag was returned to a full stack", depth)
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("depth %d: returning a tag to a full stack blocks", depth)
			}
		}
		seen := map[uint32]bool{}
		for i := 0; i < depth; i++ {
			x, err := s.Pop()
			if err != nil || seen[x] || x >= uint32(depth) {
				t.Fatalf("depth %d: took %d, %v", depth, x, err)
			}
			seen[x] = true
		}
		if err := s.Push(0); err != nil {
			t.Fatal(err)
		}
	}
}
