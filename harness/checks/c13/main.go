// Monitor of C13: webhook events.
package main

import (
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
)

const all = "*"

var topics = []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW"}

// delivery is one request an endpoint received.
type delivery struct {
	method, auth, body, ctype string
}

// hookM is the monitor's record of a hook.
type hookM struct {
	path, topic, secret, kind string
	id                        string
	subS, subE                int64 // the subscribe call
	unS, unE                  int64 // the unsubscribe call, 0 if none
	mu                        sync.Mutex
	got                       []delivery
	gate                      chan struct{}
}

type pub struct {
	topic, msg string
	s, e       int64
}

type world struct {
	r     *sim.Rec
	name  string
	svc   ports.SecurePubSub
	srv   *httptest.Server
	clock int64
	mu    sync.Mutex
	hooks map[string]*hookM // by path
	pubs  []*pub
	twin  []delivery
	n     int
}

func (w *world) bad(sig, format string, a ...interface{}) {
	w.r.Violate(sig, w.name+": "+format, a...)
}

func (w *world) tick() int64 { return atomic.AddInt64(&w.clock, 1) }

func (w *world) serve(rw http.ResponseWriter, req *http.Request) {
	body, _ := ioutil.ReadAll(req.Body)
	w.mu.Lock()
	h := w.hooks[req.URL.RequestURI()]
	w.mu.Unlock()
	if h == nil {
		if strings.HasPrefix(req.URL.Path, "/twin/") {
			w.mu.Lock()
			w.twin = append(w.twin, delivery{req.Method, strings.Join(req.Header["Authorization"], "|"), string(body), ""})
			w.mu.Unlock()
			return
		}
		w.bad("foreign-delivery", "delivery to %q that nobody subscribed", req.URL.RequestURI())
		return
	}
	h.mu.Lock()
	h.got = append(h.got, delivery{req.Method, strings.Join(req.Header["Authorization"], "|"), string(body), req.Header.Get("Content-Type")})
	n := len(h.got)
	h.mu.Unlock()
	switch h.kind {
	case "slow":
		time.Sleep(60 * time.Millisecond)
	case "fail":
		switch n % 3 {
		case 0:
			rw.WriteHeader(500)
		case 1:
			rw.WriteHeader(404)
		case 2:
			if hj, ok := rw.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					c.Close()
				}
			}
			return
		}
	case "gate":
		select {
		case <-h.gate:
		case <-time.After(20 * time.Second):
		}
	}
	fmt.Fprint(rw, "ok %d %s")
}

var kinds = []string{"ok", "ok", "ok", "slow", "fail"}

func (w *world) newHook(rng *sim.Rng, topic, kind string) *hookM {
	w.mu.Lock()
	w.n++
	path := fmt.Sprintf("/hook/%d", w.n)
	switch rng.Intn(4) {
	case 0:
		path += "?q=%FF%00&x=" + rng.Hex(3)
	case 1:
		path += "/a%22b/%C3%BF"
	}
	h := &hookM{path: path, topic: topic, kind: kind, gate: make(chan struct{})}
	switch rng.Intn(3) {
	case 0:
		h.secret = rng.Hex(16)
	case 1:
		h.secret = "s\u00ff\"\\<&>" + rng.Hex(2) + "\u2028"
	}
	w.hooks[path] = h
	w.mu.Unlock()
	return h
}

func (w *world) subscribe(h *hookM) bool {
	h.subS = w.tick()
	id, err := w.svc.Subscribe(h.topic, w.srv.URL+h.path, h.secret)
	if err != nil {
		w.bad("subscribe-refused", "subscribing %s to %s: %v", h.path, h.topic, err)
		return false
	}
	w.mu.Lock()
	h.id = id
	h.subE = w.tick()
	w.mu.Unlock()
	w.r.Count("subscriptions", 1)
	return true
}

func (w *world) unsubscribe(h *hookM) {
	w.mu.Lock()
	if h.unS == 0 {
		h.unS = w.tick()
	}
	w.mu.Unlock()
	if err := w.svc.Unsubscribe("", h.id); err != nil {
		w.bad("unsubscribe-refused", "unsubscribing %s: %v", h.path, err)
		return
	}
	w.mu.Lock()
	if h.unE == 0 {
		h.unE = w.tick()
	}
	w.mu.Unlock()
	w.r.Count("removals", 1)
}

func (w *world) publish(rng *sim.Rng, topic string) *pub {
	w.mu.Lock()
	w.n++
	msg := fmt.Sprintf(`{"n":%d,"x":"%s"}`, w.n, rng.Hex(rng.Intn(40)))
	switch rng.Intn(6) {
	case 0:
		msg = fmt.Sprintf("%d %%s %%d \u00ff\x00\x01 \"quoted\"\n", w.n)
	case 1:
		msg = fmt.Sprintf("%d", w.n) + strings.Repeat("x", rng.Intn(60000))
	}
	p := &pub{topic: topic, msg: msg}
	w.pubs = append(w.pubs, p)
	w.mu.Unlock()
	p.s = w.tick()
	w.svc.Publish(topic, msg)
	p.e = w.tick()
	w.r.Count("publications", 1)
	return p
}

// token checks a delivery's token against the secret of its hook.
func token(auth, secret string) string {
	if secret == "" {
		if auth != "" {
			return fmt.Sprintf("an unsecured hook got the token %q", auth)
		}
		return ""
	}
	if !strings.HasPrefix(auth, "Bearer ") {
		return fmt.Sprintf("a secured hook got the authorization %q", auth)
	}
	parts := strings.Split(strings.TrimPrefix(auth, "Bearer "), ".")
	if len(parts) != 3 {
		return "malformed token " + auth
	}
	m := hmac.New(sha256.New, []byte(secret))
	m.Write([]byte(parts[0] + "." + parts[1]))
	if base64.RawURLEncoding.EncodeToString(m.Sum(nil)) != parts[2] {
		return "the token does not verify with the hook's secret: " + auth
	}
	hd, err := base64.RawURLEncoding.DecodeString(parts[0])
	var hdr map[string]string
	if err != nil || json.Unmarshal(hd, &hdr) != nil || hdr["alg"] != "HS256" {
		return "the token's header is " + string(hd)
	}
	return ""
}

// twins: several hooks may share an endpoint; each is one of its own.
func (w *world) twins(rng *sim.Rng, t string) {
	w.mu.Lock()
	w.n++
	url := fmt.Sprintf("%s/twin/%d", w.srv.URL, w.n)
	w.mu.Unlock()
	type tw struct{ id, topic, secret string }
	var live []tw
	secrets := []string{"", "", rng.Hex(8), rng.Hex(8)}
	for i := range secrets {
		x := tw{topic: t, secret: secrets[i]}
		if i%2 == 1 {
			x.topic = all
		}
		id, err := w.svc.Subscribe(x.topic, url, x.secret)
		if err != nil {
			w.bad("subscribe-refused", "subscribing %s: %v", url, err)
			return
		}
		x.id = id
		live = append(live, x)
	}
	for len(live) > 0 {
		w.mu.Lock()
		w.twin = nil
		w.mu.Unlock()
		p := w.publish(rng, t)
		w.mu.Lock()
		got := w.twin
		w.mu.Unlock()
		used := map[int]bool{}
		for _, x := range live {
			found := false
			for i, d := range got {
				if !used[i] && d.body == p.msg && token(d.auth, x.secret) == "" {
					used[i], found = true, true
					break
				}
			}
			if !found {
				w.bad("twins", "of %d hooks sharing an endpoint, the one of %s with secret %q got no delivery of its own (%d deliveries)", len(live), x.topic, x.secret, len(got))
				return
			}
		}
		if len(used) != len(got) {
			w.bad("twins", "%d deliveries for %d hooks sharing an endpoint", len(got), len(live))
			return
		}
		j := rng.Intn(len(live))
		if err := w.svc.Unsubscribe("", live[j].id); err != nil {
			w.bad("unsubscribe-refused", "%v", err)
		}
		live = append(live[:j], live[j+1:]...)
		w.r.Count("shared endpoint publications", 1)
	}
}

// judge compares all deliveries with the history.
func (w *world) judge(exactFail bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	byMsg := map[string]*pub{}
	for _, p := range w.pubs {
		byMsg[p.msg] = p
	}
	for _, h := range w.hooks {
		h.mu.Lock()
		n := map[string]int{}
		for _, d := range h.got {
			n[d.body]++
			if byMsg[d.body] == nil {
				w.bad("payload", "hook %s of %s got the payload %.80q that was never published", h.path, h.topic, d.body)
			}
			if d.method != "POST" || d.ctype != "application/json" {
				w.bad("payload", "hook %s got a %s of type %s", h.path, d.method, d.ctype)
			}
			if bad := token(d.auth, h.secret); bad != "" {
				w.bad("token", "hook %s (secret %q): %s", h.path, h.secret, bad)
			}
			w.r.Count("deliveries", 1)
		}
		for _, p := range w.pubs {
			got := n[p.msg]
			match := h.topic == p.topic || h.topic == all
			live := h.subE != 0 && h.subE < p.s && (h.unS == 0 || h.unS > p.e)
			dead := h.subS > p.e || h.subS == 0 || (h.unE != 0 && h.unE < p.s)
			switch {
			case (!match || dead) && got > 0:
				w.bad("wrong-hook", "hook %s (topic %s, subscribed %d-%d, removed %d-%d) got %d deliveries of %.40q (topic %s, published %d-%d)",
					h.path, h.topic, h.subS, h.subE, h.unS, h.unE, got, p.msg, p.topic, p.s, p.e)
			case got > 1:
				w.bad("duplicate", "hook %s got %.40q %d times", h.path, p.msg, got)
			case match && live && got != 1 && (h.kind != "fail" || exactFail):
				w.bad("lost", "hook %s (kind %s, topic %s, subscribed %d-%d, removed %d-%d) did not get %.40q (topic %s, published %d-%d)",
					h.path, h.kind, h.topic, h.subS, h.subE, h.unS, h.unE, p.msg, p.topic, p.s, p.e)
			case match && live && got == 1:
				w.r.Count("obligatory deliveries", 1)
			}
		}
		h.mu.Unlock()
	}
}

// listed compares the subscriptions the service lists with the model.
func (w *world) listed(when string) {
	for _, t := range append([]string{all}, topics...) {
		want := []string{}
		w.mu.Lock()
		for _, h := range w.hooks {
			if h.subE != 0 && h.unE == 0 && (h.topic == t || h.topic == all) {
				want = append(want, fmt.Sprintf("%s %s %s %v", h.id, w.srv.URL+h.path, h.topic, h.secret != ""))
			}
		}
		w.mu.Unlock()
		got := []string{}
		for _, s := range w.svc.ListSubscriptionsForTopic(t) {
			got = append(got, fmt.Sprintf("%s %s %s %v", s.Id(), s.NotifyAt(), s.Topic().Label(), s.IsSecured()))
		}
		sort.Strings(want)
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			w.bad("subscriptions", "%s: the subscriptions of %s are\n%s\nwant\n%s", when, t, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		w.r.Count("listings compared", 1)
	}
}

func open(dir string, timeout time.Duration) (ports.SecurePubSub, error) {
	st, err := boltsecurestore.NewSecureStorage(dir, "pubsub.db")
	if err != nil {
		return nil, err
	}
	return webhookpubsub.NewWebhookPubSubService(st, esplora.NewHTTPClient(timeout))
}

func newWorld(r *sim.Rec, name string) *world {
	w := &world{r: r, name: name, hooks: map[string]*hookM{}}
	w.srv = httptest.NewUnstartedServer(http.HandlerFunc(w.serve))
	w.srv.Config.ErrorLog = nil
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("no loopback: %v", err)
		r.Finish()
		os.Exit(0)
	}
	w.srv.Listener = l
	w.srv.Start()
	return w
}

// storm runs concurrent subscriptions, removals and publications.
func storm(r *sim.Rec, rng *sim.Rng) {
	w := newWorld(r, fmt.Sprintf("storm %d", sim.Shard()))
	defer w.srv.Close()
	dir := filepath.Join(r.Dir, "hooks")
	os.MkdirAll(dir, 0755)
	svc, err := open(dir, 30*time.Second)
	if err != nil {
		r.Violate("open", "%v", err)
		return
	}
	w.svc = svc
	pass := "first password"
	must := func(what string, err error) bool {
		if err != nil {
			w.bad("store-"+what, "%s: %v", what, err)
		}
		return err == nil
	}
	if !must("init", svc.Store().Init(pass)) || !must("unlock", svc.Store().Unlock(pass)) {
		return
	}
	for round := 0; round < r.N(3, 12) && !r.Violated(); round++ {
		nWorkers := 2 + rng.Intn(5)
		useTopics := topics[:1+rng.Intn(3)]
		withFail := rng.Bool()
		r.Eval(fmt.Sprintf("storm workers%d topics%d fail%v", nWorkers, len(useTopics), withFail))
		var wg sync.WaitGroup
		for i := 0; i < nWorkers; i++ {
			wg.Add(1)
			go func(g *sim.Rng) {
				defer wg.Done()
				var mine []*hookM
				for n := 0; n < r.N(18, 30); n++ {
					t := useTopics[g.Intn(len(useTopics))]
					switch g.Intn(5) {
					case 0, 1:
						if g.Intn(4) == 0 {
							t = all
						}
						k := kinds[g.Intn(len(kinds))]
						if k == "fail" && !withFail {
							k = "ok"
						}
						h := w.newHook(g, t, k)
						if w.subscribe(h) {
							mine = append(mine, h)
						}
					case 2:
						if len(mine) > 0 {
							j := g.Intn(len(mine))
							h := mine[j]
							mine = append(mine[:j], mine[j+1:]...)
							if g.Intn(3) == 0 { // removed twice at once
								wg.Add(1)
								go func() { defer wg.Done(); w.unsubscribe(h) }()
							}
							w.unsubscribe(h)
							if g.Intn(3) == 0 {
								w.unsubscribe(h)
							}
						} else if err := svc.Unsubscribe("", "no-such-id"); err != nil {
							w.bad("unsubscribe-refused", "removing an unknown hook: %v", err)
						}
					default:
						w.publish(g, t)
					}
				}
			}(rng.Fork())
		}
		if ok, st := sim.Within(60*time.Second, wg.Wait); !ok {
			w.bad("hang", "concurrent operations did not end\n%.3000s", st)
			return
		}
		w.listed("after the storm")
		w.publish(rng, useTopics[0])
		w.judge(false)
		if r.Violated() {
			return
		}

		// hooks whose endpoints keep failing do not stop the others
		t := topics[rng.Intn(3)]
		var added []*hookM
		for i := 0; i < 3; i++ {
			h := w.newHook(rng, t, "fail")
			w.subscribe(h)
			added = append(added, h)
		}
		h := w.newHook(rng, t, "ok")
		w.subscribe(h)
		added = append(added, h)
		for i := 0; i < 14; i++ {
			w.publish(rng, t)
		}
		w.judge(false)
		w.listed("after failures of some endpoints")
		r.Count("failing-endpoint rounds", 1)

		// a hook whose endpoint hangs does not delay the others
		g := w.newHook(rng, t, "gate")
		w.subscribe(g)
		done := make(chan *pub, 1)
		go func() { done <- w.publish(rng.Fork(), t) }()
		n0 := 15
		if !sim.WaitFor(10*time.Second, func() bool { h.mu.Lock(); defer h.mu.Unlock(); return len(h.got) >= n0 }) {
			w.bad("slow-hook-blocks", "while the endpoint of hook %s hangs, hook %s of the same topic gets nothing", g.path, h.path)
		}
		// nor other events
		t2 := topics[rng.Intn(3)]
		h2 := w.newHook(rng, t2, "ok")
		if ok, _ := sim.Within(10*time.Second, func() { w.subscribe(h2) }); !ok {
			w.bad("slow-hook-blocks", "while the endpoint of hook %s hangs, subscribing hangs", g.path)
		}
		if t2 != t {
			if ok, _ := sim.Within(10*time.Second, func() { w.publish(rng, t2) }); !ok {
				w.bad("slow-hook-blocks", "while the endpoint of hook %s hangs, publishing to another topic hangs", g.path)
			}
		}
		close(g.gate)
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			w.bad("hang", "publishing did not return")
			return
		}
		w.judge(false)
		r.Count("slow-endpoint rounds", 1)
		added = append(added, g)
		// clean up for the next round: only some remain
		for _, h := range added {
			w.unsubscribe(h)
		}
		w.twins(rng, t)
		w.mu.Lock()
		var rest []*hookM
		for _, h := range w.hooks {
			if h.subE != 0 && h.unE == 0 {
				rest = append(rest, h)
			}
		}
		w.mu.Unlock()
		sort.Slice(rest, func(i, j int) bool { return rest[i].path < rest[j].path })
		for i, h := range rest {
			if i%3 != 0 || h.kind == "fail" {
				w.unsubscribe(h)
			}
		}
		w.listed("after removals")

		// close, reopen, change the password
		if round%2 == 0 {
			svc.Store().Close()
			svc, err = open(dir, 30*time.Second)
			if !must("reopen", err) {
				return
			}
			w.svc = svc
			if rng.Bool() {
				next := "password " + rng.Hex(4)
				if !must("change", svc.Store().ChangePassword(pass, next)) {
					return
				}
				if !svc.Store().IsLocked() {
					w.bad("store-open", "the store is open after a password change although it was locked before")
				}
				if svc.Store().Unlock(pass) == nil {
					w.bad("store-old-password", "the store opens with the old password")
				}
				pass = next
			}
			if !must("unlock", svc.Store().Unlock(pass)) {
				return
			}
			w.listed("after a restart")
			w.publish(rng, t)
			w.judge(false)
			r.Count("restarts of the store", 1)
		}
	}
	svc.Store().Close()
}

// lifecycle drives the store through the wallet service as the daemon does.
func lifecycle(r *sim.Rec, rng *sim.Rng) {
	w := newWorld(r, fmt.Sprintf("lifecycle %d", sim.Shard()))
	defer w.srv.Close()
	ctx := context.Background()
	dir := filepath.Join(r.Dir, "hooks")
	os.MkdirAll(dir, 0755)
	dbdir := filepath.Join(r.Dir, "db")
	os.MkdirAll(dbdir, 0755)
	chain := sim.NewChain()
	boot := func() *sim.Daemon {
		svc, err := open(dir, 30*time.Second)
		if err != nil {
			w.bad("open", "%v", err)
			return nil
		}
		w.svc = svc
		d, err := sim.NewDaemon(sim.DaemonOpts{Chain: chain, Dir: dbdir, PubSub: svc, NoListener: rng.Bool(), FewAddrs: 2})
		if err != nil {
			w.bad("daemon", "%v", err)
			return nil
		}
		return d
	}
	d := boot()
	if d == nil {
		return
	}
	pass := "pass-0"
	rep := d.Init(sim.Words, pass, false)
	if len(rep.Errs) > 0 {
		w.bad("init", "%v", rep.Errs)
		return
	}
	hist := []string{"init"}
	check := func() {
		w.name = fmt.Sprintf("lifecycle %d after %v", sim.Shard(), hist)
		// the store may still be opening: it has to be usable soon
		t := topics[rng.Intn(3)]
		code := map[string]int{"TRADE_SETTLED": application.TradeSettled, "ACCOUNT_LOW_BALANCE": application.AccountLowBalance, "ACCOUNT_WITHDRAW": application.AccountWithdraw}[t]
		var id string
		var err error
		h := w.newHook(rng, t, "ok")
		h.subS = w.tick()
		if !sim.WaitFor(10*time.Second, func() bool {
			id, err = d.Operator.AddWebhook(ctx, application.Webhook{ActionType: code, Endpoint: w.srv.URL + h.path, Secret: h.secret})
			return err == nil
		}) {
			w.bad("not-usable", "with the wallet unlocked, adding a webhook fails: %v", err)
			return
		}
		h.id = id
		h.subE = w.tick()
		time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond)
		if w.svc.Store().IsLocked() {
			w.bad("not-usable", "the store is locked again while the wallet is unlocked")
			return
		}
		w.listed("unlocked")
		for _, t := range topics {
			w.publish(rng, t)
		}
		w.judge(true)
		r.Count("lifecycle states checked", 1)
	}
	steps := r.N(4, 14)
	unlocked := false
	for i := 0; i < steps && !r.Violated(); i++ {
		for n := rng.Intn(3); n > 0 && !unlocked; n-- {
			if rng.Intn(3) == 0 {
				if err := d.Wallet.ChangePassword(ctx, "wrong "+pass, "other"); err == nil {
					w.bad("wrong-password", "the passphrase was changed with a wrong current one")
				}
				hist = append(hist, "wrong change")
				continue
			}
			next := fmt.Sprintf("pass-%s", rng.Hex(3))
			if err := d.Wallet.ChangePassword(ctx, pass, next); err != nil {
				w.bad("change", "after %v: %v", hist, err)
				return
			}
			pass = next
			hist = append(hist, "change")
			r.Count("wallet passphrase changes", 1)
		}
		if rng.Intn(3) == 0 {
			d.Wallet.UnlockWallet(ctx, "wrong")
			hist = append(hist, "wrong unlock")
		}
		if err := d.Wallet.UnlockWallet(ctx, pass); err != nil {
			w.bad("unlock", "after %v: %v", hist, err)
			return
		}
		unlocked = true
		hist = append(hist, "unlock")
		check()
		if r.Violated() {
			break
		}
		r.Eval(strings.Join(hist, ","))
		// sometimes remove a hook through the operator
		w.mu.Lock()
		var live []*hookM
		for _, h := range w.hooks {
			if h.unE == 0 {
				live = append(live, h)
			}
		}
		w.mu.Unlock()
		sort.Slice(live, func(i, j int) bool { return live[i].path < live[j].path })
		if len(live) > 1 && rng.Bool() {
			h := live[rng.Intn(len(live))]
			h.unS = w.tick()
			if err := d.Operator.RemoveWebhook(ctx, h.id); err != nil {
				w.bad("unsubscribe-refused", "%v", err)
			}
			h.unE = w.tick()
		}
		if rng.Intn(4) == 0 {
			continue
		}
		d.Close()
		w.svc.Store().Close()
		domain.MnemonicStoreManager.Unset() // what the end of the process does
		unlocked = false
		if d = boot(); d == nil {
			return
		}
		hist = append(hist, "restart")
	}
	d.Close()
	w.svc.Store().Close()
}

func main() {
	log.SetOutput(ioutil.Discard)
	r := sim.Start("case = one storm configuration (workers, topics, failing endpoints) or one lifecycle prefix; distinct by these; every pair of hook and publication is judged: exactly one delivery when the hook was subscribed for the whole publication, none when it was not subscribed at all or to another topic, at most one otherwise")
	if sim.Shard() < 0 {
		r.RunShards(r.N(16, 32))
		r.NeedAtLeast("obligatory deliveries", 1000)
		r.NeedAtLeast("removals", 300)
		r.NeedAtLeast("failing-endpoint rounds", 10)
		r.NeedAtLeast("slow-endpoint rounds", 10)
		r.NeedAtLeast("restarts of the store", 10)
		r.NeedAtLeast("lifecycle states checked", 15)
		r.Assume("a delivery is a request received by the endpoint; an endpoint that failed more than ten times may be skipped by its circuit breaker")
		r.Finish()
		return
	}
	sim.UseFastEncrypter()
	domain.MnemonicStoreManager = &sim.MemStore{}
	rng := r.Rng("c13")
	if sim.Shard()%2 == 0 {
		storm(r, rng)
	} else {
		lifecycle(r, rng)
	}
	r.Finish()
}
