package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"gopkg.in/macaroon-bakery.v2/bakery"
	macaroon "gopkg.in/macaroon.v2"
)

var bg = context.Background()

var entities = []string{"operator", "market", "price", "wallet", "webhook"}
var actions = []string{"read", "write"}

func randOps(r *sim.Rng, max int) []bakery.Op {
	n := 1 + r.Intn(max)
	out := make([]bakery.Op, n)
	for i := range out {
		out[i] = bakery.Op{Entity: entities[r.Intn(len(entities))], Action: actions[r.Intn(2)]}
	}
	return out
}

// token is a macaroon the monitor knows the meaning of.
type token struct {
	m     *macaroon.Macaroon
	key   string // root key id
	gen   int
	ops   []bakery.Op
	holds bool // its caveats
	kind  string
}

// call is the context of a request.
func call(ip string, macs ...string) context.Context {
	md := metadata.MD{}
	if len(macs) > 0 {
		md["macaroon"] = macs
	}
	ctx := metadata.NewIncomingContext(bg, md)
	return peer.NewContext(ctx, &peer.Peer{Addr: &net.TCPAddr{IP: net.ParseIP(ip), Port: 4242}})
}

type svcWorld struct {
	r      *sim.Rec
	rng    *sim.Rng
	dir    string
	svc    *macaroons.Service
	pass   string // "" before the first unlock
	open   bool
	gens   map[string]int // live root keys
	nextG  int
	tokens []*token
	hist   []string
}

func (w *svcWorld) log(f string, a ...interface{}) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }
func (w *svcWorld) bad(sig, f string, a ...interface{}) {
	h := w.hist
	if len(h) > 25 {
		h = h[len(h)-25:]
	}
	w.r.Violate(sig, "%s; history: %v", fmt.Sprintf(f, a...), h)
}

func (w *svcWorld) start() bool {
	svc, err := macaroons.NewService(w.dir, "tdexd", "macaroons.db", false, macaroons.IPLockChecker)
	if err != nil {
		w.bad("service-open", "opening the macaroon service: %v", err)
		return false
	}
	w.svc, w.open = svc, false
	return true
}

// need makes the requirement of a request for the token: held, partly or not held.
func (w *svcWorld) need(t *token) ([]bakery.Op, string) {
	r := w.rng
	method := "/Operator/" + r.Str(3)
	var need []bakery.Op
	switch r.Intn(4) {
	case 0:
		need = randOps(r, 2)
	case 1: // all but one held
		for i := 0; i < 1+r.Intn(2); i++ {
			need = append(need, t.ops[r.Intn(len(t.ops))])
		}
		o := randOps(r, 1)[0]
		if r.Bool() { // near miss
			o = t.ops[r.Intn(len(t.ops))]
			if o.Action == "read" {
				o.Action = "write"
			} else {
				o.Action = "read"
			}
		}
		k := r.Intn(len(need) + 1)
		need = append(need[:k:k], append([]bakery.Op{o}, need[k:]...)...)
	default:
		for i := 0; i < 1+r.Intn(2); i++ {
			need = append(need, t.ops[r.Intn(len(t.ops))])
		}
	}
	if r.Intn(5) == 0 {
		for _, o := range t.ops {
			if o.Entity == macaroons.PermissionEntityCustomURI {
				method = o.Action
			}
		}
	}
	return need, method
}

func (w *svcWorld) allowed(t *token, need []bakery.Op, method string) bool {
	if !w.open || !t.holds {
		return false
	}
	if g, ok := w.gens[t.key]; !ok || g != t.gen {
		return false
	}
	return subset(need, t.ops) || subset([]bakery.Op{{Entity: macaroons.PermissionEntityCustomURI, Action: method}}, t.ops)
}

func (w *svcWorld) validate(n int) {
	r := w.rng
	for i := 0; i < n && len(w.tokens) > 0; i++ {
		t := w.tokens[r.Intn(len(w.tokens))]
		if r.Intn(3) > 0 && len(w.tokens) > 12 { // recent ones
			t = w.tokens[len(w.tokens)-1-r.Intn(12)]
		}
		need, method := w.need(t)
		b := bin(t.m)
		want, kind := w.allowed(t, need, method), t.kind
		ctx := call("127.0.0.1", hex.EncodeToString(b))
		switch r.Intn(8) {
		case 0, 1:
			var others []*macaroon.Macaroon
			for _, o := range w.tokens {
				others = append(others, o.m)
			}
			tb, k := tamper(r, t.m, others)
			if tb == nil {
				continue
			}
			want, kind = false, k
			ctx = call("127.0.0.1", hex.EncodeToString(tb))
		case 2:
			if r.Intn(4) > 0 {
				break
			}
			switch r.Intn(4) {
			case 0:
				ctx, want, kind = call("127.0.0.1"), false, "none"
			case 1:
				ctx, want, kind = call("127.0.0.1", r.Str(8)), false, "not hex"
			case 2:
				ctx, want, kind = bg, false, "no metadata"
			default:
				ctx, want, kind = call("127.0.0.1", r.Hex(20)), false, "garbage"
			}
		}
		var err error
		ok, dump := sim.Within(30*time.Second, func() { err = w.svc.ValidateMacaroon(ctx, need, method) })
		if !ok {
			w.bad("validate-hangs", "validation does not return: %.300s", dump)
			return
		}
		w.r.Eval(fmt.Sprintf("svc %s %v %v %d", kind, want, w.open, len(need)))
		if err == nil {
			w.r.Count("validations accepted", 1)
		} else {
			w.r.Count("validations refused", 1)
		}
		if (err == nil) == want {
			continue
		}
		if err == nil {
			w.bad("service-accepts", "accepted: %s macaroon of root key %q gen %d (live %v, unlocked %v) with %v for %v at %s", kind, t.key, t.gen, w.gens, w.open, t.ops, need, method)
		} else {
			w.bad("service-refuses", "refused: %s macaroon of root key %q gen %d (live %v) with %v for %v at %s: %v", kind, t.key, t.gen, w.gens, t.ops, need, method, err)
		}
	}
}

func (w *svcWorld) mint() {
	r := w.rng
	key := []string{"0", "1", "2", "team-a", "k\x00\xff", "enckey", "", "0 "}[r.Intn(8)]
	ops := randOps(r, 4)
	if r.Intn(4) == 0 {
		ops = append(ops, bakery.Op{Entity: macaroons.PermissionEntityCustomURI, Action: "/Operator/" + r.Str(3)})
	}
	if r.Intn(6) == 0 {
		ops = ops[len(ops)-1:]
	}
	m, err := w.svc.NewMacaroon(bg, []byte(key), ops...)
	w.log("mint %q %v -> %v", key, ops, err)
	may := w.open && key != "" && key != "enckey"
	if (err == nil) != may {
		w.bad("mint", "minting under root key id %q while unlocked=%v: %v", key, w.open, err)
	}
	if err != nil {
		return
	}
	if !may {
		return
	}
	if _, ok := w.gens[key]; !ok {
		w.nextG++
		w.gens[key] = w.nextG
	}
	w.tokens = append(w.tokens, &token{m: m.M(), key: key, gen: w.gens[key], ops: ops, holds: true, kind: "plain"})
}

func (w *svcWorld) derive() {
	if len(w.tokens) == 0 {
		return
	}
	t := *w.tokens[w.rng.Intn(len(w.tokens))]
	before := bin(t.m)
	m, holds, kind := narrow(w.rng, t.m)
	if string(before) != string(bin(t.m)) {
		w.bad("narrow-alters", "narrowing (%s) altered the macaroon it was made of", kind)
	}
	t.m, t.holds, t.kind = m, t.holds && holds, t.kind+"+"+kind
	w.tokens = append(w.tokens, &t)
}

func (w *svcWorld) ids() {
	ids, err := w.svc.ListMacaroonIDs(bg)
	if (err == nil) != w.open {
		w.bad("list-ids", "listing root keys while unlocked=%v: %v", w.open, err)
		return
	}
	if err != nil {
		return
	}
	got := map[string]bool{}
	for _, i := range ids {
		got[string(i)] = true
	}
	if len(got) != len(w.gens) || len(ids) != len(got) {
		w.bad("list-ids", "root keys %q, expected %v", ids, w.gens)
	}
	for k := range w.gens {
		if !got[k] {
			w.bad("list-ids", "root keys %q, expected %v", ids, w.gens)
		}
	}
}

func (w *svcWorld) unlock(p string, isNil bool) {
	b := []byte(p)
	arg := &b
	if isNil {
		arg = nil
	}
	err := w.svc.CreateUnlock(arg)
	w.log("unlock %q nil=%v -> %v", p, isNil, err)
	should := !w.open && !isNil && (w.pass == "" || w.pass == p)
	if (err == nil) != should {
		w.bad("unlock", "unlocking with %q (current %q, unlocked %v, nil %v): %v", p, w.pass, w.open, isNil, err)
	}
	if err == nil {
		w.open = true
		if w.pass == "" {
			w.pass = p
		}
	}
}

func (w *svcWorld) change(old, nw string) {
	err := w.svc.ChangePassword([]byte(old), []byte(nw))
	w.log("change %q -> %q: %v", old, nw, err)
	_, def := w.gens["0"]
	if err == nil && (!w.open || old != w.pass) {
		w.bad("change-password", "password changed with %q while it was %q, unlocked=%v", old, w.pass, w.open)
	}
	if err != nil && w.open && old == w.pass && def {
		w.bad("change-password", "password not changed: %v", err)
	}
	if err == nil {
		w.pass = nw
		w.r.Count("password changes", 1)
	}
}

func serviceWorld(rec *sim.Rec, r *sim.Rng, steps int) {
	dir, _ := ioutil.TempDir(rec.Dir, "mac")
	defer os.RemoveAll(dir)
	w := &svcWorld{r: rec, rng: r, dir: filepath.Join(dir, "db"), gens: map[string]int{}}
	if !w.start() {
		return
	}
	w.mint() // locked
	pass := "pw-" + r.Str(5)
	w.unlock(pass, false)
	for i := 0; i < steps && !rec.Violated(); i++ {
		for j := 0; j < 6; j++ {
			w.mint()
			w.derive()
		}
		switch r.Intn(11) {
		case 0, 1, 2: // change the password
			old := w.pass
			if r.Intn(4) == 0 {
				old = "x" + old
			}
			w.change(old, "pw-"+r.Str(6))
		case 3, 4:
			if !w.open {
				if err := w.svc.GenerateNewRootKey(); err == nil {
					w.bad("rekey", "a locked store made a root key")
				}
				break
			}
			if err := w.svc.GenerateNewRootKey(); err != nil {
				w.bad("rekey", "new root key: %v", err)
				break
			}
			w.nextG++
			w.gens["0"] = w.nextG
			w.log("new default root key")
			rec.Count("root keys replaced", 1)
		case 5, 6:
			key := []string{"0", "1", "2", "team-a", "k\x00\xff", "enckey", "nope"}[r.Intn(7)]
			id, err := w.svc.DeleteMacaroonID(bg, []byte(key))
			w.log("delete %q -> %q %v", key, id, err)
			_, known := w.gens[key]
			switch {
			case !w.open || key == "0" || key == "enckey":
				if err == nil {
					w.bad("delete", "deleting root key %q while unlocked=%v succeeded", key, w.open)
				}
			case err != nil || (string(id) == key) != known:
				w.bad("delete", "deleting root key %q (exists %v): %q %v", key, known, id, err)
			}
			if w.open && err == nil && key != "0" && key != "enckey" {
				delete(w.gens, key)
				rec.Count("root keys deleted", 1)
			}
		case 7, 8: // restart
			if err := w.svc.Close(); err != nil {
				w.bad("close", "closing: %v", err)
			}
			w.log("restart")
			if !w.start() {
				return
			}
			w.validate(6)
			w.ids()
			if r.Bool() {
				w.unlock("wrong-"+r.Str(2), false)
			}
			if r.Bool() {
				w.unlock("", true)
			}
			if r.Intn(3) == 0 {
				w.mint()
				w.change(w.pass, "zz")
				w.validate(6)
			}
			w.unlock(w.pass, false)
			rec.Count("restarts", 1)
		case 9:
			w.unlock([]string{w.pass, "other"}[r.Intn(2)], false)
		}
		w.ids()
		w.validate(40)
	}
	w.svc.Close()
}

// rekeyStorm validates while the password and the default root key change.
func rekeyStorm(rec *sim.Rec, r *sim.Rng) {
	dir, _ := ioutil.TempDir(rec.Dir, "mac")
	defer os.RemoveAll(dir)
	svc, err := macaroons.NewService(dir, "tdexd", "macaroons.db", false, macaroons.IPLockChecker)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer svc.Close()
	pass := "p0"
	b := []byte(pass)
	if err := svc.CreateUnlock(&b); err != nil {
		panic("harness: " + err.Error())
	}
	ops := []bakery.Op{{Entity: "market", Action: "read"}}
	m0, err0 := svc.NewMacaroon(bg, []byte("0"), ops...)
	m1, err1 := svc.NewMacaroon(bg, []byte("side"), ops...)
	if err0 != nil || err1 != nil {
		panic(fmt.Sprint("harness: ", err0, err1))
	}
	def, side := hex.EncodeToString(bin(m0.M())), hex.EncodeToString(bin(m1.M()))
	var stop, dead int32 // dead: 1 while the default key is being replaced, 2 after
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		gr := r.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				d0 := atomic.LoadInt32(&dead)
				errS := svc.ValidateMacaroon(call("127.0.0.1", side), ops, "/m")
				errD := svc.ValidateMacaroon(call("127.0.0.1", def), ops, "/m")
				errX := svc.ValidateMacaroon(call("127.0.0.1", side), []bakery.Op{{Entity: "market", Action: "write"}}, "/m")
				d1 := atomic.LoadInt32(&dead)
				rec.Eval(fmt.Sprintf("storm %d %d", d0, d1))
				if errS != nil {
					rec.Violate("storm-refused", "a valid macaroon was refused while the store was re-keyed: %v", errS)
				}
				if errX == nil {
					rec.Violate("storm-accepted", "a macaroon was accepted beyond its permissions while the store was re-keyed")
				}
				if errD != nil && d1 == 0 {
					rec.Violate("storm-refused", "a valid macaroon was refused while the store was re-keyed: %v", errD)
				}
				if errD == nil && d0 == 2 {
					rec.Violate("storm-stale", "a macaroon of a replaced root key was accepted")
				}
				if gr.Intn(3) == 0 {
					key := fmt.Sprintf("s%d", gr.Intn(3))
					if m, err := svc.NewMacaroon(bg, []byte(key), ops...); err == nil {
						svc.ValidateMacaroon(call("127.0.0.1", hex.EncodeToString(bin(m.M()))), ops, "/m")
					} else {
						rec.Violate("storm-mint", "minting failed while the store was re-keyed: %v", err)
					}
				}
				rec.Count("validations in storms", 3)
			}
		}()
	}
	ok, dump := sim.Within(120*time.Second, func() {
		for i := 1; i <= 2; i++ {
			np := fmt.Sprintf("p%d", i)
			if err := svc.ChangePassword([]byte(pass), []byte(np)); err != nil {
				rec.Violate("storm-change", "password change failed under load: %v", err)
				break
			}
			pass = np
			rec.Count("password changes", 1)
		}
		atomic.StoreInt32(&dead, 1)
		if err := svc.GenerateNewRootKey(); err != nil {
			rec.Violate("storm-rekey", "%v", err)
		}
		atomic.StoreInt32(&dead, 2)
		rec.Count("root keys replaced", 1)
		time.Sleep(20 * time.Millisecond)
		if err := svc.ChangePassword([]byte(pass), []byte("final")); err != nil {
			rec.Violate("storm-change", "password change failed under load: %v", err)
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
	})
	atomic.StoreInt32(&stop, 1)
	if !ok {
		rec.Violate("storm-hangs", "re-keying under load does not return: %.400s", dump)
	}
}
