package tagstack

import "testing"

func TestReplayC22(t *testing.T) {
	for depth := 0; depth < 4; depth++ {
		for _, s := range []*TagStack{New(depth), NewBlocking(depth)} {
			free := func(what string) {
				if !s.TryLock() {
					t.Fatalf("%v, depth %v: the lock stays locked", what, depth)
				}
				s.Unlock()
			}
			for i := 0; i < 20; i++ {
				if i%7 < 4 {
					if s.Depth() > 0 || !s.blocking {
						s.Pop()
						free("pop")
					}
				} else {
					s.Push(uint32(i))
					free("push")
				}
				s.Depth()
				free("depth")
			}
		}
	}
}
