package sim

import (
	"sync"
	"sync/atomic"
)

// LinOp is one completed operation of a concurrent history.
type LinOp struct {
	Client    int
	Call, Ret int64
	In, Out   interface{}
}

// History records the operations of concurrent clients; the clock is a shared
// counter, so that an operation that returned before another was called has a
// smaller Ret than the other's Call.
type History struct {
	mu    sync.Mutex
	clock int64
	Ops   []LinOp
}

// Do runs f as one operation.
func (h *History) Do(client int, in interface{}, f func() interface{}) {
	c := atomic.AddInt64(&h.clock, 1)
	out := f()
	r := atomic.AddInt64(&h.clock, 1)
	h.mu.Lock()
	h.Ops = append(h.Ops, LinOp{client, c, r, in, out})
	h.mu.Unlock()
}

// LinModel is a deterministic sequential specification. Step returns whether
// the output is allowed in the state and the state after it. Key names a state.
type LinModel struct {
	Init func() interface{}
	Step func(state, in, out interface{}) (bool, interface{})
	Key  func(state interface{}) string
}

// Linearizable searches for an order of the operations (at most 64) that
// respects real time and the model. The number of states tried is returned;
// ok is true and complete false if the budget ran out.
func Linearizable(m LinModel, ops []LinOp, budget int) (ok, complete bool, tried int) {
	n := len(ops)
	if n > 64 {
		panic("history too long")
	}
	seen := map[string]bool{}
	complete = true
	var rec func(done uint64, st interface{}) bool
	rec = func(done uint64, st interface{}) bool {
		if done == (uint64(1)<<uint(n))-1 || (n == 64 && done == ^uint64(0)) {
			return true
		}
		k := string([]byte{byte(done), byte(done >> 8), byte(done >> 16), byte(done >> 24),
			byte(done >> 32), byte(done >> 40), byte(done >> 48), byte(done >> 56)}) + m.Key(st)
		if seen[k] {
			return false
		}
		seen[k] = true
		if tried++; tried > budget {
			complete = false
			return true
		}
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if done&(1<<uint(i)) == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<uint(i)) != 0 || ops[i].Call > minRet {
				continue
			}
			if good, ns := m.Step(st, ops[i].In, ops[i].Out); good {
				if rec(done|1<<uint(i), ns) {
					return true
				}
			}
		}
		return false
	}
	ok = rec(0, m.Init())
	return
}

// Overlaps counts pairs of operations that were in progress together.
func Overlaps(ops []LinOp) int {
	c := 0
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			if ops[i].Call < ops[j].Ret && ops[j].Call < ops[i].Ret {
				c++
			}
		}
	}
	return c
}
