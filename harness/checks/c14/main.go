// Monitor of C14: the blockchain crawler.
package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sony/gobreaker"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/circuitbreaker"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
)

const deadline = 15 * time.Second

// ---- scripted explorer --------------------------------------------------

type utxo struct {
	explorer.Utxo
	hash string
}

func (u utxo) Hash() string { return u.hash }

// answer is one answer the explorer gave.
type answer struct {
	id        string // unique
	key       string
	epoch     int64 // the number of removals of the key when the call started
	hashes    []string
	confirmed bool
	blockHash string
	blockTime float64
	removed   bool // the key was not observed when the call started
	used      int32
}

type keyState struct {
	calls     int64
	inFlight  int32
	maxFlight int32
	hexOK     bool
	observed  bool
	epoch     int64
	late      int64 // calls started since it was last removed
	events    int64
	account   map[int]bool
	answers   map[string]*answer
	errs      int64
}

type fake struct {
	explorer.Service
	mu        sync.Mutex
	rng       *sim.Rng
	keys      map[string]*keyState
	errPct    int
	slow      int // max delay of an answer, ms
	blind     map[string]string
	errSeen   map[string]bool
	bad       []string
	n         int64
	stopped   bool
	afterStop int64
}

func (f *fake) st(k string) *keyState {
	s := f.keys[k]
	if s == nil {
		s = &keyState{account: map[int]bool{}, answers: map[string]*answer{}}
		f.keys[k] = s
	}
	return s
}

func (f *fake) enter(k string) (s *keyState, a *answer, delay time.Duration, fail bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	s = f.st(k)
	s.calls++
	f.n++
	if f.stopped {
		f.afterStop++
	}
	if n := atomic.AddInt32(&s.inFlight, 1); n > s.maxFlight {
		s.maxFlight = n
	}
	if !s.observed {
		s.late++
	}
	a = &answer{id: fmt.Sprintf("%s#%d", k, f.n), key: k, epoch: s.epoch, removed: !s.observed}
	if f.slow > 0 && f.rng.Intn(3) == 0 {
		delay = time.Duration(f.rng.Intn(f.slow*1000)) * time.Microsecond
	}
	fail = f.rng.Intn(100) < f.errPct
	return
}

func (f *fake) leave(s *keyState, a *answer, fail bool) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	atomic.AddInt32(&s.inFlight, -1)
	if fail {
		s.errs++
		msg := "explorer error " + a.id
		f.errSeen[msg] = true
		return errors.New(msg)
	}
	s.answers[a.id] = a
	return nil
}

func (f *fake) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	s, a, d, fail := f.enter(addr)
	time.Sleep(d)
	f.mu.Lock()
	if len(keys) != 1 || string(keys[0]) != f.blind[addr] {
		f.bad = append(f.bad, fmt.Sprintf("address %s asked with blinding keys %q, want %q", addr, keys, f.blind[addr]))
	}
	k := f.rng.Intn(3)
	f.mu.Unlock()
	var out []explorer.Utxo
	// the first hash identifies the answer; an address without coins gets an
	// answer without identity
	if k > 0 {
		for i := 0; i < k; i++ {
			h := fmt.Sprintf("%s/%d", a.id, i)
			a.hashes = append(a.hashes, h)
			out = append(out, utxo{hash: h})
		}
	}
	if err := f.leave(s, a, fail); err != nil {
		return nil, err
	}
	return out, nil
}

func (f *fake) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	s, a, d, fail := f.enter(txid)
	time.Sleep(d)
	f.mu.Lock()
	a.confirmed = f.rng.Bool()
	a.blockHash = "hash/" + a.id
	a.blockTime = float64(1600000000 + f.n)
	f.mu.Unlock()
	if err := f.leave(s, a, fail); err != nil {
		return nil, err
	}
	return map[string]interface{}{
		"confirmed": a.confirmed, "block_hash": a.blockHash, "block_time": a.blockTime,
		"block_height": float64(12345),
	}, nil
}

func (f *fake) GetTransactionHex(txid string) (string, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.rng.Intn(100) < f.errPct {
		return "", errors.New("explorer error hex")
	}
	f.st(txid).hexOK = true
	return "hex-of-" + txid, nil
}

// ---- one world ----------------------------------------------------------

type world struct {
	r      *sim.Rec
	name   string
	f      *fake
	svc    crawler.Service
	paused int32
	closed chan struct{}
	once   sync.Once
	events int64
	noread bool
}

func (w *world) bad(sig, format string, a ...interface{}) {
	w.r.Violate(sig, w.name+": "+format, a...)
}

// event checks one emitted event against what the explorer answered.
func (w *world) event(e crawler.Event) {
	atomic.AddInt64(&w.events, 1)
	f := w.f
	f.mu.Lock()
	defer f.mu.Unlock()
	var a *answer
	var key string
	switch e := e.(type) {
	case crawler.CloseEvent:
		w.once.Do(func() { close(w.closed) })
		return
	case crawler.AddressEvent:
		key = e.Address
		s := f.keys[key]
		if s == nil {
			w.bad("event-foreign", "event for address %q that was never observed", key)
			return
		}
		s.events++
		want := crawler.MarketAccountDeposit
		if e.AccountIndex == 0 {
			want = crawler.FeeAccountDeposit
		}
		if !s.account[e.AccountIndex] || e.EventType != want {
			w.bad("event-account", "event of address %s carries account %d and type %s", key, e.AccountIndex, e.EventType)
		}
		if len(e.Utxos) == 0 {
			for _, x := range s.answers {
				if len(x.hashes) == 0 && x.used == 0 {
					a = x
					break
				}
			}
			if a == nil {
				w.bad("event-content", "address %s: event without coins, but no such answer is left unreported", key)
				return
			}
		} else {
			id := strings.SplitN(e.Utxos[0].Hash(), "/", 2)[0]
			a = s.answers[id]
			if a == nil || a.key != key {
				w.bad("event-content", "address %s: event carries coin %s the explorer did not report for it", key, e.Utxos[0].Hash())
				return
			}
			var got []string
			for _, u := range e.Utxos {
				got = append(got, u.Hash())
			}
			if fmt.Sprint(got) != fmt.Sprint(a.hashes) {
				w.bad("event-content", "address %s: event has coins %v, the explorer answered %v", key, got, a.hashes)
			}
		}
	case crawler.TransactionEvent:
		key = e.TxID
		s := f.keys[key]
		if s == nil {
			w.bad("event-foreign", "event for tx %q that was never observed", key)
			return
		}
		s.events++
		a = s.answers[strings.TrimPrefix(e.BlockHash, "hash/")]
		if a == nil || a.key != key {
			w.bad("event-content", "tx %s: event has block hash %q, not one of the explorer's answers", key, e.BlockHash)
			return
		}
		if (e.EventType == crawler.TransactionConfirmed) != a.confirmed ||
			(e.EventType != crawler.TransactionConfirmed && e.EventType != crawler.TransactionUnConfirmed) ||
			e.BlockTime != a.blockTime {
			w.bad("event-content", "tx %s: event %+v, the explorer answered confirmed=%v time=%v", key, e, a.confirmed, a.blockTime)
		}
		if e.TxHex != "" && e.TxHex != "hex-of-"+key || e.TxHex == "" && f.errPct == 0 && !s.hexOK {
			w.bad("event-content", "tx %s: event has hex %q", key, e.TxHex)
		}
	default:
		w.bad("event-unknown", "unknown event %T", e)
		return
	}
	if a.used++; a.used > 1 {
		w.bad("event-repeated", "answer %s reported %d times", a.id, a.used)
	}
	w.r.Count("events", 1)
}

func (w *world) add(key string, acc int) {
	f := w.f
	f.mu.Lock()
	s := f.st(key)
	isTx := strings.HasPrefix(key, "tx")
	s.account[acc] = true
	if !f.stopped {
		s.observed = true
	}
	f.mu.Unlock()
	if isTx {
		w.svc.AddObservable(crawler.NewTransactionObservable(key))
	} else {
		w.svc.AddObservable(crawler.NewAddressObservable(acc, key, []byte(f.blind[key])))
	}
	w.r.Count("adds", 1)
}

func (w *world) remove(key string) {
	if strings.HasPrefix(key, "tx") {
		w.svc.RemoveObservable(&crawler.TransactionObservable{TxID: key})
	} else {
		w.svc.RemoveObservable(&crawler.AddressObservable{Address: key})
	}
	f := w.f
	f.mu.Lock()
	s := f.st(key)
	s.observed = false
	s.epoch++
	s.late = 0
	f.mu.Unlock()
	w.r.Count("removes", 1)
}

// must runs f, which has to return in time.
func (w *world) must(what string, f func()) bool {
	ok, _ := sim.Within(deadline, f)
	if !ok {
		w.bad("hang-"+what, "%s did not return within %v", what, deadline)
	}
	return ok
}

func run(r *sim.Rec, rng *sim.Rng, name string, mode int) (leftClose bool) {
	w := &world{r: r, name: name, closed: make(chan struct{})}
	w.f = &fake{rng: rng.Fork(), keys: map[string]*keyState{}, blind: map[string]string{}, errSeen: map[string]bool{}}
	f := w.f
	f.errPct = []int{0, 10, 50, 90}[rng.Intn(4)]
	f.slow = []int{0, 0, 3, 30}[rng.Intn(4)]
	interval := time.Duration(500+rng.Intn(15000)) * time.Microsecond
	opts := crawler.Opts{
		ExplorerSvc: f, CrawlerInterval: interval, ExplorerLimit: 1 << 30, ExplorerTokenBurst: 1 + rng.Intn(50),
		ErrorHandler: func(err error) {
			f.mu.Lock()
			known := f.errSeen[err.Error()]
			f.mu.Unlock()
			if !known && err != gobreaker.ErrOpenState {
				w.bad("error-invented", "error handler got %q, not one the explorer returned", err)
			}
			r.Count("errors handled", 1)
		},
	}
	if rng.Intn(4) == 0 {
		opts.ExplorerLimit = 300 + rng.Intn(700)
	}
	w.svc = crawler.NewService(opts)
	startDone := make(chan struct{})
	withStart := mode != 3 || rng.Bool()
	if withStart {
		go func() { w.svc.Start(); close(startDone) }()
	}
	nKeys := 1 + rng.Intn(8)
	if mode == 2 {
		nKeys = 30 + rng.Intn(100)
	}
	var keys []string
	for i := 0; i < nKeys; i++ {
		k := fmt.Sprintf("%s%d", []string{"tx", "addr"}[rng.Intn(2)], i)
		keys = append(keys, k)
		f.blind[k] = "key-of-" + k
	}
	acct := func(k string) int { return []int{0, 5, 7}[len(k)*7%3] }

	w.noread = mode == 2 || mode == 3
	readerQuit := make(chan struct{})
	var readerWg sync.WaitGroup
	startReader := func() {
		readerWg.Add(1)
		go func() {
			defer readerWg.Done()
			ch := w.svc.GetEventChannel()
			for {
				if atomic.LoadInt32(&w.paused) == 1 {
					select {
					case <-readerQuit:
						return
					case <-time.After(time.Millisecond):
					}
					continue
				}
				select {
				case e := <-ch:
					w.event(e)
				case <-readerQuit:
					return
				}
			}
		}()
	}
	if !w.noread {
		startReader()
	}
	r.Eval(fmt.Sprintf("mode%d err%d slow%d keys%d", mode, f.errPct, f.slow, nKeys))

	// phase 1: a storm of adds and removes. Each goroutine owns its keys so
	// that the observed set is known.
	var wg sync.WaitGroup
	workers := 1 + rng.Intn(4)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int, g *sim.Rng) {
			defer wg.Done()
			for j := i; j < len(keys); j += workers {
				w.must("add", func() { w.add(keys[j], acct(keys[j])) })
			}
			for n := 0; n < 30; n++ {
				k := keys[g.Intn(len(keys))/workers*workers%len(keys)]
				j := g.Intn((len(keys)+workers-1-i)/workers+1)*workers + i
				if j >= len(keys) {
					continue
				}
				k = keys[j]
				switch {
				case mode == 0: // adds only: one poller per observable
					w.must("add", func() { w.add(k, acct(k)) })
				case g.Bool():
					w.must("remove", func() { w.remove(k) })
				default:
					w.must("add", func() { w.add(k, acct(k)) })
				}
				switch g.Intn(3) {
				case 0:
					time.Sleep(time.Duration(g.Intn(4000)) * time.Microsecond)
				case 1:
					if g.Intn(4) == 0 && !w.noread {
						atomic.StoreInt32(&w.paused, int32(g.Intn(2)))
					}
				}
			}
		}(i, rng.Fork())
	}
	// a world may be stopped in the middle of the storm
	early := mode == 3 && rng.Bool()
	if early {
		time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
		w.stop(rng, withStart, startDone)
	}
	if ok, _ := sim.Within(deadline*2, wg.Wait); !ok {
		w.bad("hang-storm", "the add/remove storm did not end")
		return true
	}
	if r.Violated() {
		close(readerQuit)
		return true
	}
	atomic.StoreInt32(&w.paused, 0)

	if mode == 0 {
		f.mu.Lock()
		for k, s := range f.keys {
			if s.maxFlight > 1 {
				w.bad("double-poller", "%s had %d explorer calls at once although it is observed once", k, s.maxFlight)
			}
		}
		f.mu.Unlock()
	}

	// phase 2: everything observed is polled and reported again and again,
	// whatever the explorer returned in between
	if !w.noread {
		for round := 0; round < 2; round++ {
			f.mu.Lock()
			f.errPct = 100
			f.mu.Unlock()
			if round == 1 {
				// nobody reads for a while, the queue may fill up
				atomic.StoreInt32(&w.paused, 1)
				f.mu.Lock()
				f.errPct = 0
				f.mu.Unlock()
			}
			time.Sleep(interval*3 + time.Duration(f.slow)*time.Millisecond + 10*time.Millisecond)
			atomic.StoreInt32(&w.paused, 0)
			f.mu.Lock()
			f.errPct = 0
			base := map[string][2]int64{}
			for k, s := range f.keys {
				if s.observed {
					base[k] = [2]int64{s.calls, s.events}
				}
			}
			f.mu.Unlock()
			missing := ""
			live := sim.WaitFor(deadline, func() bool {
				f.mu.Lock()
				defer f.mu.Unlock()
				missing = ""
				for k, b := range base {
					if s := f.keys[k]; s.calls < b[0]+2 || s.events < b[1]+2 {
						missing = fmt.Sprintf("%s: %d calls and %d events since (%d and %d before)", k, s.calls-b[0], s.events-b[1], b[0], b[1])
						return false
					}
				}
				return true
			})
			if !live {
				w.bad("not-polled", "an observed key is no longer polled and reported (round %d, interval %v): %s", round, interval, missing)
			}
			r.Count("keys seen polled after errors", int64(len(base)))
		}
		// what is not observed is not polled
		late := map[string]int64{}
		f.mu.Lock()
		for k, s := range f.keys {
			late[k] = s.late
		}
		f.mu.Unlock()
		time.Sleep(interval*5 + 10*time.Millisecond)
		f.mu.Lock()
		for k, s := range f.keys {
			if !s.observed && s.late > late[k]+1 {
				w.bad("polled-after-removal", "%s was polled %d times after its removal", k, s.late)
			}
			if s.observed != w.svc.IsObservingAddresses([]string{k}) {
				w.bad("observed-set", "%s: observed=%v, the crawler says otherwise", k, s.observed)
			}
			if !s.observed {
				r.Count("keys seen quiet after removal", 1)
			}
		}
		f.mu.Unlock()
	}

	f.mu.Lock()
	if len(f.bad) > 0 {
		w.bad("wrong-question", "%s", f.bad[0])
	}
	f.mu.Unlock()

	// phase 3: stop, twice or more, and from several goroutines
	if mode == 2 {
		// the queue is full by now
		sim.WaitFor(2*time.Second, func() bool { return len(w.svc.GetEventChannel()) == cap(w.svc.GetEventChannel()) })
		if len(w.svc.GetEventChannel()) == cap(w.svc.GetEventChannel()) {
			r.Count("stops with a full queue", 1)
		}
	}
	if !w.stop(rng, withStart, startDone) {
		return true
	}
	// nothing but the calls in flight happens afterwards
	lim := int64(len(keys)) * 2
	sim.WaitFor(deadline, func() bool { return w.flying() == 0 })
	f.mu.Lock()
	n0 := f.afterStop
	f.mu.Unlock()
	time.Sleep(interval*3 + 10*time.Millisecond)
	f.mu.Lock()
	n1 := f.afterStop
	f.mu.Unlock()
	if n0 > lim || n1 > n0+int64(len(keys)) {
		w.bad("polled-after-stop", "%d explorer calls after the stop of %d observables", n1, len(keys))
	}
	// whoever reads is told
	drain := !w.noread || rng.Bool()
	if w.noread && drain {
		startReader()
	}
	if drain {
		select {
		case <-w.closed:
			r.Count("close events", 1)
		case <-time.After(deadline):
			w.bad("no-close-event", "no close event after the stop")
		}
		time.Sleep(5 * time.Millisecond)
	}
	close(readerQuit)
	readerWg.Wait()
	r.Count(fmt.Sprintf("worlds of mode %d", mode), 1)
	return !drain
}

func (w *world) flying() (n int32) {
	w.f.mu.Lock()
	defer w.f.mu.Unlock()
	for _, s := range w.f.keys {
		n += atomic.LoadInt32(&s.inFlight)
	}
	return
}

func (w *world) stop(rng *sim.Rng, withStart bool, startDone chan struct{}) bool {
	ok := true
	var wg sync.WaitGroup
	n := 1 + rng.Intn(3)
	g := rng.Fork()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !w.must("stop", w.svc.Stop) {
				ok = false
			}
			w.r.Count("stops", 1)
		}()
		if g.Bool() {
			time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
		}
	}
	wg.Wait()
	w.f.mu.Lock()
	w.f.stopped = true
	for _, s := range w.f.keys {
		s.observed = false
	}
	w.f.mu.Unlock()
	if !ok {
		return false
	}
	// late calls are harmless
	for i := 0; i < 4; i++ {
		k := fmt.Sprintf("tx%d", g.Intn(6))
		switch g.Intn(3) {
		case 0:
			w.must("add", func() { w.add(k, 0) })
		case 1:
			w.must("remove", func() { w.remove(k) })
		case 2:
			w.must("stop", w.svc.Stop)
		}
	}
	if withStart {
		select {
		case <-startDone:
		case <-time.After(deadline):
			w.bad("start-never-returns", "Start did not return after Stop")
			return false
		}
	}
	return true
}

// pollers counts the goroutines that run code of the crawler package.
func pollers() (int, string) {
	buf := make([]byte, 1<<24)
	buf = buf[:runtime.Stack(buf, true)]
	n, ex := 0, ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "/pkg/crawler.") && !strings.Contains(g, "zzverif/checks/c14.pollers") {
			n++
			ex = g
		}
	}
	return n, ex
}

// breaker: the circuit breaker of an observable opens after many failures in a
// row and closes again; the observable must survive it.
func breaker(r *sim.Rec, rng *sim.Rng) {
	w := &world{r: r, name: "breaker", closed: make(chan struct{})}
	w.f = &fake{rng: rng, keys: map[string]*keyState{}, blind: map[string]string{"addr0": "k"}, errSeen: map[string]bool{}, errPct: 100}
	w.svc = crawler.NewService(crawler.Opts{ExplorerSvc: w.f, CrawlerInterval: 5 * time.Millisecond,
		ExplorerLimit: 1 << 30, ExplorerTokenBurst: 10, ErrorHandler: func(error) {}})
	go w.svc.Start()
	go func() {
		for e := range w.svc.GetEventChannel() {
			w.event(e)
			if _, ok := e.(crawler.CloseEvent); ok {
				return
			}
		}
	}()
	w.add("addr0", 0)
	w.add("tx0", 0)
	time.Sleep(500 * time.Millisecond)
	w.f.mu.Lock()
	w.f.errPct = 0
	w.f.mu.Unlock()
	if !sim.WaitFor(90*time.Second, func() bool {
		w.f.mu.Lock()
		defer w.f.mu.Unlock()
		return w.f.st("addr0").events > 3 && w.f.st("tx0").events > 3
	}) {
		w.bad("not-polled", "observables did not recover from a long failure of the explorer")
	}
	w.stop(rng, false, nil)
	r.Count("recoveries from an open circuit breaker", 1)
}

func main() {
	r := sim.Start("case = one crawler run (mode, error rate, delay, number of keys); distinct by these; every event is checked against the explorer's answers, every observed key must be polled and reported again after errors and after a full queue, no call may hang, no goroutine of the crawler may remain")
	if sim.Shard() < 0 {
		r.RunShards(r.N(8, 24))
		r.NeedAtLeast("events", 5000)
		r.NeedAtLeast("keys seen polled after errors", 500)
		r.NeedAtLeast("keys seen quiet after removal", 100)
		r.NeedAtLeast("stops with a full queue", 10)
		r.NeedAtLeast("close events", 50)
		r.NeedAtLeast("leak checks", 8)
		r.Assume("a liveness obligation not met within 15 s is a violation; pollers tick every 0.5 to 15 ms")
		r.Finish()
		return
	}
	rng := r.Rng("c14")
	if r.Thorough() && sim.Shard() == 0 {
		breaker(r, rng.Fork())
	}
	circuitbreaker.MaxNumOfFailingRequests = 1 << 40
	par := 10
	rounds := r.N(5, 40)
	left := 0
	for round := 0; round < rounds && !r.Violated(); round++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i := 0; i < par; i++ {
			wg.Add(1)
			g := rng.Fork()
			go func(i int) {
				defer wg.Done()
				if run(r, g, fmt.Sprintf("world %d.%d.%d", sim.Shard(), round, i), i%4) {
					mu.Lock()
					left++
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		if r.Violated() {
			break
		}
		// every poller is gone; a world that nobody reads may keep the one
		// goroutine that waits to announce the stop
		ex := ""
		if !sim.WaitFor(deadline, func() bool {
			n, e := pollers()
			ex = e
			return n <= left
		}) {
			n, _ := pollers()
			r.Violate("leak", "%d goroutines of the crawler are left after all crawlers stopped (%d expected at most), e.g.\n%s", n, left, ex)
		}
		r.Count("leak checks", 1)
	}
	r.Finish()
}
