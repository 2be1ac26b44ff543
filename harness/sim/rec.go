package sim

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Violation is one refutation of the property, identified by Sig.
type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// Rec records what a run observed.
type Rec struct {
	mu         sync.Mutex
	Tier       string
	Seed       uint64
	rule       string
	evals      int64
	distinct   map[string]struct{}
	counters   map[string]int64
	samples    []interface{}
	violations []Violation
	vcount     map[string]int
	incon      []string
	assume     []string
	start      time.Time
	out        string
	Dir        string
}

// Start reads the environment and opens the recorder of this run.
func Start(rule string) *Rec {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	r := &Rec{
		Tier: tier, Seed: seed, rule: rule,
		distinct: map[string]struct{}{}, counters: map[string]int64{},
		vcount: map[string]int{}, start: time.Now(),
		out: os.Getenv("VERIF_OUT"), Dir: os.Getenv("VERIF_SCRATCH"),
	}
	if r.Dir == "" {
		r.Dir, _ = ioutil.TempDir("", "verif")
	}
	debug.SetTraceback("all")
	if p := os.Getenv("VERIF_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	r.flushLocked()
	go r.watchStall()
	return r
}

// watchStall ends a run in which nothing is observed any more because a call
// made to the repository does not return.
func (r *Rec) watchStall() {
	limit := 200 * time.Second
	if r.Thorough() {
		limit = 600 * time.Second
	}
	var last int64
	since := time.Now()
	for {
		time.Sleep(5 * time.Second)
		r.mu.Lock()
		n := r.evals + int64(len(r.violations))
		for _, c := range r.counters {
			n += c
		}
		r.mu.Unlock()
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < limit {
			continue
		}
		site, stack := stuckCall()
		if site == "" {
			continue
		}
		r.Violate("hang:"+site, "nothing happens for %s, a call to the repository does not return:\n%.3000s", limit, stack)
		r.Finish()
	}
}

// stuckCall finds a goroutine in which the harness waits for repository code,
// and the innermost function of the latter.
func stuckCall() (site, stack string) {
	buf := make([]byte, 8<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if i := strings.Index(g, "\ncreated by "); i >= 0 {
			g = g[:i]
		}
		f, mine := "", false
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "\t") || !strings.Contains(l, "tdex-daemon/") && !strings.HasPrefix(l, "main.") {
				continue
			}
			if strings.HasPrefix(l, "main.") || strings.Contains(l, "zzverif") {
				if f != "" {
					mine = true
				}
				continue
			}
			if f == "" {
				f = l
			}
		}
		if mine {
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			return f, g
		}
	}
	return "", ""
}

func (r *Rec) Thorough() bool { return r.Tier == "thorough" }

// N picks the workload size of the tier.
func (r *Rec) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func (r *Rec) Rng(label string) *Rng {
	h := r.Seed
	for _, c := range label {
		h = h*1099511628211 + uint64(c)
	}
	return NewRng(h)
}

// Eval counts one evaluated case; a non-empty key makes it count as a distinct
// non-trivial one.
func (r *Rec) Eval(key string) {
	r.mu.Lock()
	r.evals++
	if key != "" {
		r.distinct[key] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Rec) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

func (r *Rec) Get(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

func (r *Rec) Sample(s interface{}) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Rec) Assume(s string) {
	r.mu.Lock()
	r.assume = append(r.assume, s)
	r.mu.Unlock()
}

// Violate records a refutation. sig names what fails, stably.
func (r *Rec) Violate(sig, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.vcount[sig]++
	if r.vcount[sig] <= 3 {
		r.violations = append(r.violations, Violation{sig, fmt.Sprintf(format, args...)})
		r.flushLocked()
	}
}

func (r *Rec) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

// NeedAtLeast makes the run inconclusive if a counter is below n.
func (r *Rec) NeedAtLeast(name string, n int64) {
	r.mu.Lock()
	if r.counters[name] < n {
		r.incon = append(r.incon, fmt.Sprintf("%s: %d observed, %d needed", name, r.counters[name], n))
	}
	r.mu.Unlock()
}

func (r *Rec) Inconclusive(format string, args ...interface{}) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

type result struct {
	Done       bool             `json:"done"`
	Rule       string           `json:"rule"`
	Evals      int64            `json:"evaluations"`
	Distinct   int              `json:"distinct"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []interface{}    `json:"samples"`
	Violations []Violation      `json:"violations"`
	VCount     map[string]int   `json:"vcount"`
	Incon      []string         `json:"inconclusive"`
	Assume     []string         `json:"assumptions"`
	WallS      float64          `json:"wall_s"`
	Keys       []string         `json:"keys,omitempty"`
}

func (r *Rec) flush(done bool) {
	if r.out == "" {
		return
	}
	res := result{done, r.rule, r.evals, len(r.distinct), r.counters, r.samples,
		r.violations, r.vcount, r.incon, r.assume, time.Since(r.start).Seconds(), nil}
	if Shard() >= 0 {
		for k := range r.distinct {
			res.Keys = append(res.Keys, k)
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		b, _ = json.Marshal(result{Done: done, Rule: r.rule, Evals: r.evals,
			Distinct: len(r.distinct), Counters: r.counters, Violations: r.violations,
			VCount: r.vcount, Incon: append(r.incon, err.Error())})
	}
	tmp := r.out + ".tmp"
	ioutil.WriteFile(tmp, b, 0644)
	os.Rename(tmp, r.out)
}

func (r *Rec) flushLocked() { r.flush(false) }

// Finish writes the result; the driver turns it into evidence and verdict.
func (r *Rec) Finish() {
	r.mu.Lock()
	r.flush(true)
	n := len(r.violations)
	r.mu.Unlock()
	if os.Getenv("VERIF_PROF") != "" {
		pprof.StopCPUProfile()
	}
	if r.out == "" {
		fmt.Printf("evals=%d distinct=%d counters=%v incon=%v wall=%.1fs\n", r.evals, len(r.distinct), r.counters, r.incon, time.Since(r.start).Seconds())
		for _, v := range r.violations {
			fmt.Printf("VIOL %s x%d: %s\n", v.Sig, r.vcount[v.Sig], v.Detail)
		}
	}
	if n > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Guard runs f and reports a panic as (site, message); ok is false then.
func Guard(f func()) (ok bool, site, msg string) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			msg = fmt.Sprint(p)
			site = panicSite(string(debug.Stack()))
			if site == "unknown" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return true, "", ""
}

// panicSite names the innermost repository function on a panic's stack.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "tdex-daemon/") && !strings.Contains(l, "zzverif") {
			f := l
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			return f
		}
	}
	return "unknown"
}

// GuardV runs f and turns a panic into a violation with signature
// prefix + ":panic:" + site.
func (r *Rec) GuardV(prefix, ctx string, f func()) bool {
	ok, site, msg := Guard(f)
	if !ok {
		r.Violate(prefix+":panic:"+site, "%s: panic: %s in %s", ctx, msg, site)
	}
	return ok
}

// Within runs f and reports whether it returned within d; a goroutine dump is
// returned otherwise.
func Within(d time.Duration, f func()) (bool, string) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true, ""
	case <-time.After(d):
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		return false, string(buf[:n])
	}
}

// WaitFor polls cond until it holds or the generous deadline passes.
func WaitFor(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(2 * time.Millisecond)
	}
}
