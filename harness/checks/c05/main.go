// Monitor of C05: the UTXO set of both storage back ends against a model.
package main

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
)

var ctx = context.Background()

type ent struct {
	u               domain.Unspent
	spent, conf     bool
	lock            uuid.UUID // zero when unlocked
	lockKnown       bool      // false once spent: the back ends differ there
	addedAs, readds int
}

type model map[domain.UnspentKey]*ent

func (m model) match(spentOK, confOnly, unlockedOnly bool, addrs map[string]bool, asset string) []domain.UnspentKey {
	r := []domain.UnspentKey{}
	for k, e := range m {
		if !spentOK && e.spent || confOnly && !e.conf || unlockedOnly && e.lock != uuid.Nil {
			continue
		}
		if addrs != nil && !addrs[e.u.Address] || asset != "" && e.u.AssetHash != asset {
			continue
		}
		r = append(r, k)
	}
	return r
}

func keyStr(k domain.UnspentKey) string { return fmt.Sprintf("%s:%d", k.TxID[:6], k.VOut) }

func set(ks []domain.UnspentKey) string {
	s := make([]string, len(ks))
	for i, k := range ks {
		s[i] = keyStr(k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func keysOf(us []domain.Unspent) []domain.UnspentKey {
	r := make([]domain.UnspentKey, len(us))
	for i, u := range us {
		r[i] = u.Key()
	}
	return r
}

type world struct {
	addrs, assets []string
	txids         []string
	trades        []uuid.UUID
}

func newWorld(g *sim.Rng) *world {
	w := &world{}
	for i := 0; i < 2+g.Intn(5); i++ {
		w.addrs = append(w.addrs, "addr-"+g.Str(4+g.Intn(40)))
	}
	for i := 0; i < 1+g.Intn(3); i++ {
		w.assets = append(w.assets, g.Hex(32))
	}
	for i := 0; i < 2+g.Intn(6); i++ {
		w.txids = append(w.txids, g.Hex(32))
	}
	for i := 0; i < 3; i++ {
		w.trades = append(w.trades, uuid.New())
	}
	return w
}

func (w *world) key(g *sim.Rng) domain.UnspentKey {
	vs := []uint32{0, 1, 2, 3, 4294967295}
	return domain.UnspentKey{TxID: w.txids[g.Intn(len(w.txids))], VOut: vs[g.Intn(len(vs))]}
}

func (w *world) keys(g *sim.Rng) []domain.UnspentKey {
	n := 1 + g.Intn(4)
	r := []domain.UnspentKey{}
	for i := 0; i < n; i++ {
		k := w.key(g)
		if g.Chance(25) {
			k.TxID = g.Hex(32) // unknown
		}
		r = append(r, k)
	}
	return r
}

func (w *world) unspent(g *sim.Rng) domain.Unspent {
	k := w.key(g)
	v := g.Log(40)
	if g.Chance(12) {
		v = g.Log(60)
	}
	return domain.Unspent{TxID: k.TxID, VOut: k.VOut, Value: v,
		AssetHash: w.assets[g.Intn(len(w.assets))], Address: w.addrs[g.Intn(len(w.addrs))],
		ValueCommitment: g.Hex(33), AssetCommitment: g.Hex(33), ValueBlinder: g.Bytes(32), AssetBlinder: g.Bytes(32),
		ScriptPubKey: g.Bytes(22), Nonce: g.Bytes(33), RangeProof: g.Bytes(g.Intn(200)), SurjectionProof: g.Bytes(g.Intn(60)),
		Confirmed: g.Bool(),
	}
}

func (w *world) subset(g *sim.Rng) ([]string, map[string]bool) {
	m := map[string]bool{}
	l := []string{}
	for _, a := range w.addrs {
		if g.Bool() {
			l = append(l, a)
			m[a] = true
		}
	}
	if g.Chance(4) {
		l = append(l, "addr-foreign")
		m["addr-foreign"] = true
	}
	return l, m
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func sameCoin(a, b domain.Unspent) string {
	switch {
	case a.Value != b.Value:
		return "value"
	case a.AssetHash != b.AssetHash:
		return "asset"
	case a.Address != b.Address:
		return "address"
	case a.ValueCommitment != b.ValueCommitment || a.AssetCommitment != b.AssetCommitment:
		return "commitment"
	case !eqBytes(a.ValueBlinder, b.ValueBlinder) || !eqBytes(a.AssetBlinder, b.AssetBlinder):
		return "blinder"
	case !eqBytes(a.ScriptPubKey, b.ScriptPubKey):
		return "script"
	case !eqBytes(a.Nonce, b.Nonce) || !eqBytes(a.RangeProof, b.RangeProof) || !eqBytes(a.SurjectionProof, b.SurjectionProof):
		return "proof"
	}
	return ""
}

type run struct {
	r       *sim.Rec
	backend string
	repo    domain.UnspentRepository
	m       model
	w       *world
	g       *sim.Rng
	log     []string
}

func (x *run) bad(sig, f string, a ...interface{}) {
	l := x.log
	if len(l) > 30 {
		l = l[len(l)-30:]
	}
	x.r.Violate(sig+":"+strings.Split(x.backend, "-")[0], "%s [%s] after %s", fmt.Sprintf(f, a...), x.backend, strings.Join(l, "; "))
}

func (x *run) checkCoin(what string, u domain.Unspent) {
	e := x.m[u.Key()]
	if e == nil {
		x.bad("unknown-coin", "%s returned %s which was never added", what, keyStr(u.Key()))
		return
	}
	if d := sameCoin(u, e.u); d != "" {
		x.bad("coin-changed", "%s returned %s with another %s", what, keyStr(u.Key()), d)
	}
	if u.Spent != e.spent {
		x.bad("spent-flag", "%s: %s spent=%v, model %v", what, keyStr(u.Key()), u.Spent, e.spent)
	}
	if u.Confirmed != e.conf {
		x.bad("confirmed-flag", "%s: %s confirmed=%v, model %v", what, keyStr(u.Key()), u.Confirmed, e.conf)
	}
	if !e.spent && e.lockKnown {
		if u.Locked != (e.lock != uuid.Nil) {
			x.bad("lock-flag", "%s: %s locked=%v, model %v", what, keyStr(u.Key()), u.Locked, e.lock != uuid.Nil)
		} else if u.Locked && (u.LockedBy == nil || *u.LockedBy != e.lock) {
			x.bad("lock-owner", "%s: %s locked by %v, model %v", what, keyStr(u.Key()), u.LockedBy, e.lock)
		}
	}
}

func (x *run) queries() {
	g, w, r := x.g, x.w, x.repo
	addrs, am := w.subset(g)
	asset := w.assets[g.Intn(len(w.assets))]
	if g.Chance(10) {
		asset = g.Hex(32)
	}
	cmp := func(what string, us []domain.Unspent, err error, want []domain.UnspentKey) {
		if err != nil {
			x.bad("query-error", "%s: %s", what, err)
			return
		}
		if a, b := set(keysOf(us)), set(want); a != b {
			x.bad("query:"+what, "%s(%d addresses): got {%s}, model {%s}", what, len(addrs), a, b)
		}
		for _, u := range us {
			x.checkCoin(what, u)
		}
	}
	cmp("GetAllUnspents", r.GetAllUnspents(ctx), nil, x.m.match(true, false, false, nil, ""))
	us, err := r.GetAvailableUnspents(ctx)
	cmp("GetAvailableUnspents", us, err, x.m.match(false, true, true, nil, ""))
	us, err = r.GetAllUnspentsForAddresses(ctx, addrs)
	cmp("GetAllUnspentsForAddresses", us, err, x.m.match(true, false, false, am, ""))
	us, err = r.GetUnspentsForAddresses(ctx, addrs)
	cmp("GetUnspentsForAddresses", us, err, x.m.match(false, true, false, am, ""))
	us, err = r.GetAvailableUnspentsForAddresses(ctx, addrs)
	cmp("GetAvailableUnspentsForAddresses", us, err, x.m.match(false, true, true, am, ""))
	sum := func(ks []domain.UnspentKey) (s uint64) {
		for _, k := range ks {
			s += x.m[k].u.Value
		}
		return
	}
	b, err := r.GetBalance(ctx, addrs, asset)
	if err != nil || b != sum(x.m.match(false, true, false, am, asset)) {
		x.bad("balance", "GetBalance: %d (%v), model %d", b, err, sum(x.m.match(false, true, false, am, asset)))
	}
	b, err = r.GetUnlockedBalance(ctx, addrs, asset)
	if err != nil || b != sum(x.m.match(false, true, true, am, asset)) {
		x.bad("unlocked-balance", "GetUnlockedBalance: %d (%v), model %d", b, err, sum(x.m.match(false, true, true, am, asset)))
	}
	k := w.key(g)
	u, err := r.GetUnspentWithKey(ctx, k)
	if e := x.m[k]; e == nil {
		if u != nil {
			x.bad("get", "GetUnspentWithKey finds %s which was never added", keyStr(k))
		}
	} else if u == nil || err != nil {
		x.bad("get", "GetUnspentWithKey does not find %s: %v", keyStr(k), err)
	} else {
		x.checkCoin("GetUnspentWithKey", *u)
		// what is returned is the caller's: changing it changes nothing stored
		u.Value++
		u.Spend()
		u.Address = "changed"
	}
	x.r.Count("queries", 8)
	x.r.Eval(fmt.Sprintf("%s|%d|%s|%s", x.backend, len(addrs), set(x.m.match(false, true, true, nil, "")), set(x.m.match(false, true, false, nil, ""))))
}

func (x *run) step() {
	g, w := x.g, x.w
	c := g.Intn(100)
	switch {
	case c < 30:
		us := []domain.Unspent{}
		for i := 0; i < 1+g.Intn(4); i++ {
			us = append(us, w.unspent(g))
		}
		in := append([]domain.Unspent{}, us...)
		x.log = append(x.log, fmt.Sprintf("add {%s}", set(keysOf(us))))
		if err := x.repo.AddUnspents(ctx, in); err != nil {
			x.bad("add-error", "AddUnspents: %s", err)
		}
		for i, u := range us {
			if !reflect.DeepEqual(u, in[i]) {
				x.bad("add-changes-argument", "AddUnspents changed its argument")
			}
			if e := x.m[u.Key()]; e == nil {
				x.m[u.Key()] = &ent{u: u, conf: u.Confirmed, lockKnown: true}
			} else {
				e.readds++
				x.r.Count("re-added", 1)
			}
		}
	case c < 52:
		ks := w.keys(g)
		t := w.trades[g.Intn(len(w.trades))]
		x.log = append(x.log, fmt.Sprintf("lock {%s} %s", set(ks), t.String()[:4]))
		n, err := x.repo.LockUnspents(ctx, ks, t)
		want, exact := 0, true
		for _, k := range ks {
			e := x.m[k]
			if e == nil {
				continue
			}
			if e.spent {
				exact = false
				e.lockKnown = false
				continue
			}
			if e.lock == uuid.Nil {
				e.lock = t
				want++
			} else if e.lock != t {
				x.r.Count("lock-conflicts", 1)
			}
		}
		if err != nil {
			x.bad("lock-error", "LockUnspents: %s", err)
		} else if exact && n != want {
			x.bad("lock-count", "LockUnspents reports %d locked, model %d", n, want)
		}
	case c < 70:
		ks := w.keys(g)
		x.log = append(x.log, fmt.Sprintf("unlock {%s}", set(ks)))
		n, err := x.repo.UnlockUnspents(ctx, ks)
		want, exact := 0, true
		for _, k := range ks {
			e := x.m[k]
			if e == nil {
				continue
			}
			if e.spent {
				exact = false
				continue
			}
			if e.lock != uuid.Nil {
				e.lock = uuid.Nil
				want++
			}
		}
		if err != nil {
			x.bad("unlock-error", "UnlockUnspents: %s", err)
		} else if exact && n != want {
			x.bad("unlock-count", "UnlockUnspents reports %d unlocked, model %d", n, want)
		}
	case c < 86:
		ks := w.keys(g)
		x.log = append(x.log, fmt.Sprintf("confirm {%s}", set(ks)))
		if _, err := x.repo.ConfirmUnspents(ctx, ks); err != nil {
			x.bad("confirm-error", "ConfirmUnspents: %s", err)
		}
		for _, k := range ks {
			if e := x.m[k]; e != nil {
				e.conf = true
			}
		}
	default:
		ks := w.keys(g)
		x.log = append(x.log, fmt.Sprintf("spend {%s}", set(ks)))
		if _, err := x.repo.SpendUnspents(ctx, ks); err != nil {
			x.bad("spend-error", "SpendUnspents: %s", err)
		}
		for _, k := range ks {
			if e := x.m[k]; e != nil {
				if !e.spent {
					x.r.Count("spends", 1)
				}
				e.spent = true
			}
		}
	}
	x.r.Count("operations", 1)
}

// tx history: operations inside the repository manager's transactions, some of
// which fail and must leave nothing behind (badger only: the in-memory one has
// no transactions).
func (x *run) txStep(rm ports.RepoManager) {
	g, w := x.g, x.w
	fail := g.Bool()
	us := []domain.Unspent{w.unspent(g), w.unspent(g)}
	ks := w.keys(g)
	t := w.trades[g.Intn(3)]
	kind := g.Intn(2)
	boom := fmt.Errorf("boom")
	var err error
	if kind == 0 {
		x.log = append(x.log, fmt.Sprintf("utx add {%s} spend {%s} fail=%v", set(keysOf(us)), set(ks), fail))
		_, err = rm.RunUnspentsTransaction(ctx, false, func(c context.Context) (interface{}, error) {
			if e := x.repo.AddUnspents(c, us); e != nil {
				return nil, e
			}
			if _, e := x.repo.SpendUnspents(c, ks); e != nil {
				return nil, e
			}
			if fail {
				return nil, boom
			}
			return nil, nil
		})
	} else {
		x.log = append(x.log, fmt.Sprintf("tx lock {%s} fail=%v", set(ks), fail))
		_, err = rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
			if _, e := x.repo.LockUnspents(c, ks, t); e != nil {
				return nil, e
			}
			if fail {
				return nil, boom
			}
			return nil, nil
		})
	}
	if fail != (err != nil) {
		x.bad("tx-error", "transaction returned %v, handler failed: %v", err, fail)
	}
	x.r.Count("transactions", 1)
	if fail {
		return
	}
	if kind == 0 {
		for _, u := range us {
			if x.m[u.Key()] == nil {
				x.m[u.Key()] = &ent{u: u, conf: u.Confirmed, lockKnown: true}
			}
		}
		for _, k := range ks {
			if e := x.m[k]; e != nil {
				e.spent = true
			}
		}
		return
	}
	for _, k := range ks {
		if e := x.m[k]; e != nil {
			if e.spent {
				e.lockKnown = false
			} else if e.lock == uuid.Nil {
				e.lock = t
			}
		}
	}
}

func sequential(r *sim.Rec, backend string, n, steps int) {
	for i := 0; i < n; i++ {
		g := r.Rng(fmt.Sprintf("seq-%s-%d", backend, i))
		rm := sim.OpenRepo(r, backend, i)
		x := &run{r: r, backend: backend, repo: rm.UnspentRepository(), m: model{}, w: newWorld(g), g: g}
		ok := r.GuardV("seq", backend, func() {
			for s := 0; s < steps; s++ {
				if backend != "inmemory" && g.Chance(6) {
					x.txStep(rm)
				} else {
					x.step()
				}
				if s%3 == 2 {
					x.queries()
				}
			}
		})
		if ok && backend == "badger-disk" {
			// a restart keeps the reservations; the coins come back from the chain
			rm.Close()
			rm = sim.OpenRepo(r, backend, i)
			x.repo = rm.UnspentRepository()
			re := []domain.Unspent{}
			for _, e := range x.m {
				u := e.u
				u.Confirmed = e.conf
				if !e.spent {
					re = append(re, u)
				}
			}
			x.log = append(x.log, "restart")
			old := x.m
			x.m = model{}
			if err := x.repo.AddUnspents(ctx, re); err != nil {
				x.bad("add-error", "AddUnspents: %s", err)
			}
			for k, e := range old {
				if !e.spent {
					x.m[k] = e
				}
			}
			x.queries()
			r.Count("restarts", 1)
		}
		rm.Close()
		if i == 0 {
			r.Sample(fmt.Sprintf("%s: %s", backend, strings.Join(x.log, "; ")))
		}
	}
}

// ---- concurrent histories ----

type cin struct {
	op   string
	keys []int
	t    int
}

type cstate [3]struct {
	conf, spent bool
	lock        int
}

// bulk checks that multi-coin operations of many clients neither lose nor tear
// updates, and that at most one of the clients racing for a coin gets it.
func concurrent(r *sim.Rec, backend string, rounds int) {
	trades := []uuid.UUID{uuid.New(), uuid.New(), uuid.New(), uuid.New()}
	addr := []string{"a0", "a1", "a2"}
	asset := strings.Repeat("ab", 32)
	for rd := 0; rd < rounds; rd++ {
		g := r.Rng(fmt.Sprintf("conc-%s-%d", backend, rd))
		rm := sim.OpenRepo(r, backend, 1000+rd)
		repo := rm.UnspentRepository()
		keys := []domain.UnspentKey{}
		var init cstate
		us := []domain.Unspent{}
		for i := 0; i < 3; i++ {
			k := domain.UnspentKey{TxID: g.Hex(32), VOut: uint32(i)}
			keys = append(keys, k)
			c := g.Chance(2)
			init[i].conf = c
			us = append(us, domain.Unspent{TxID: k.TxID, VOut: k.VOut, Value: 1 << uint(4*i), AssetHash: asset, Address: addr[i], Confirmed: c})
		}
		if err := repo.AddUnspents(ctx, us); err != nil {
			r.Violate("add-error:"+backend, "AddUnspents: %s", err)
			continue
		}
		h := &sim.History{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for c := 0; c < 4; c++ {
			cg := g.Fork()
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 6; i++ {
					in := cin{t: c + 1}
					p := cg.Perm(3)
					in.keys = p[:1+cg.Intn(3)]
					sort.Ints(in.keys)
					switch x := cg.Intn(100); {
					case x < 40:
						in.op = "lock"
					case x < 60:
						in.op = "unlock"
					case x < 68:
						in.op = "confirm"
					case x < 74:
						in.op = "spend"
					case x < 80:
						in.op = "add"
					case x < 90:
						in.op = "bal"
					default:
						in.op = "avail"
					}
					ks := []domain.UnspentKey{}
					as := []string{}
					for _, j := range in.keys {
						ks = append(ks, keys[j])
						as = append(as, addr[j])
					}
					h.Do(c, in, func() interface{} {
						switch in.op {
						case "lock":
							n, err := repo.LockUnspents(ctx, ks, trades[c])
							return [2]interface{}{n, err}
						case "unlock":
							n, err := repo.UnlockUnspents(ctx, ks)
							return [2]interface{}{n, err}
						case "confirm":
							_, err := repo.ConfirmUnspents(ctx, ks)
							return [2]interface{}{0, err}
						case "spend":
							_, err := repo.SpendUnspents(ctx, ks)
							return [2]interface{}{0, err}
						case "add":
							l := []domain.Unspent{}
							for _, j := range in.keys {
								u := us[j]
								u.Value = 999999
								l = append(l, u)
							}
							return [2]interface{}{0, repo.AddUnspents(ctx, l)}
						case "bal":
							b, err := repo.GetUnlockedBalance(ctx, as, asset)
							return [2]interface{}{int(b), err}
						}
						l, err := repo.GetAvailableUnspentsForAddresses(ctx, as)
						s := 0
						for _, u := range l {
							s += int(u.Value)
						}
						return [2]interface{}{s, err}
					})
				}
			}()
		}
		var pan string
		func() {
			defer func() {
				if p := recover(); p != nil {
					pan = fmt.Sprint(p)
				}
			}()
			close(start)
			wg.Wait()
		}()
		if pan != "" {
			r.Violate("concurrent:panic:"+backend, "%s", pan)
		}
		m := sim.LinModel{
			Init: func() interface{} { return init },
			Key:  func(s interface{}) string { return fmt.Sprint(s.(cstate)) },
			Step: func(s, i, o interface{}) (bool, interface{}) {
				st, in, out := s.(cstate), i.(cin), o.([2]interface{})
				if e, _ := out[1].(error); e != nil {
					return false, st
				}
				got := out[0].(int)
				n, exact := 0, true
				for _, j := range in.keys {
					switch in.op {
					case "lock":
						if st[j].spent {
							exact = false
						} else if st[j].lock == 0 {
							st[j].lock = in.t
							n++
						}
					case "unlock":
						if st[j].spent {
							exact = false
						} else if st[j].lock != 0 {
							st[j].lock = 0
							n++
						}
					case "confirm":
						st[j].conf = true
					case "spend":
						st[j].spent = true
					case "bal", "avail":
						if st[j].conf && !st[j].spent && st[j].lock == 0 {
							n += 1 << uint(4*j)
						}
					}
				}
				switch in.op {
				case "confirm", "spend", "add":
					return true, st
				}
				return !exact || got == n, st
			},
		}
		// the final state is the last operation of the history
		final := h.Ops
		last := int64(1) << 40
		for j := 0; j < 3; j++ {
			u, err := repo.GetUnspentWithKey(ctx, keys[j])
			if err != nil || u == nil {
				r.Violate("lost-coin:"+backend, "coin %d is gone after concurrent operations (%v)", j, err)
				continue
			}
			if u.Value != 1<<uint(4*j) {
				r.Violate("coin-changed:"+backend, "re-adding a coin replaced it")
			}
			if u.Spent {
				continue
			}
			v := 0
			if u.Confirmed && !u.Locked {
				v = 1 << uint(4*j)
			}
			final = append(final, sim.LinOp{Client: 99, Call: last, Ret: last + 1, In: cin{op: "avail", keys: []int{j}}, Out: [2]interface{}{v, nil}})
			last += 2
		}
		ok, complete, tried := sim.Linearizable(m, final, 400000)
		if !ok {
			r.Violate("not-linearizable:"+backend, "no order of the operations explains what %d concurrent clients saw: %+v", 4, final)
		}
		if !complete {
			r.Count("budget-exceeded", 1)
		}
		r.Count("concurrent-histories", 1)
		r.Count("lin-states", int64(tried))
		r.Count("overlapping-pairs", int64(sim.Overlaps(h.Ops)))
		r.Eval(fmt.Sprintf("conc-%s-%v", backend, h.Ops))
		rm.Close()
	}
}

// owner checks mutual exclusion of locks: many trades race for the same coins
// and every coin must be granted once.
func race4coins(r *sim.Rec, backend string, rounds int) {
	rm := sim.OpenRepo(r, backend, 5000)
	defer rm.Close()
	repo := rm.UnspentRepository()
	for rd := 0; rd < rounds; rd++ {
		k := domain.UnspentKey{TxID: r.Rng(fmt.Sprint("r4c", backend, rd)).Hex(32), VOut: 1}
		if err := repo.AddUnspents(ctx, []domain.Unspent{{TxID: k.TxID, VOut: 1, Value: 7, AssetHash: "aa", Address: "z", Confirmed: true}}); err != nil {
			r.Violate("add-error:"+backend, "%s", err)
		}
		var mu sync.Mutex
		win := []uuid.UUID{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for c := 0; c < 8; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				t := uuid.New()
				<-start
				n, err := repo.LockUnspents(ctx, []domain.UnspentKey{k}, t)
				if err == nil && n == 1 {
					mu.Lock()
					win = append(win, t)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		u, err := repo.GetUnspentWithKey(ctx, k)
		if len(win) != 1 {
			r.Violate("double-lock:"+backend, "%d of 8 racing trades got the same coin", len(win))
		} else if err != nil || u == nil || u.LockedBy == nil || *u.LockedBy != win[0] {
			r.Violate("lock-owner:"+backend, "the coin is not held by the trade that got it")
		}
		r.Count("lock-races", 1)
		r.Eval("")
	}
}

func main() {
	r := sim.Start("random histories of add/lock/unlock/confirm/spend (overlapping keys, re-adds, unknown keys, transactions that fail, restart) against a reference model, all queries compared every third step; distinct: back end with distinct available and unspent sets; concurrent histories of 4 clients over 3 coins checked for linearizability, 8-way races for one coin")
	for _, b := range []string{"inmemory", "badger-mem"} {
		sequential(r, b, r.N(40, 400), 120)
	}
	sequential(r, "badger-disk", r.N(6, 40), 60)
	for _, b := range []string{"inmemory", "badger-mem"} {
		concurrent(r, b, r.N(120, 2000))
		race4coins(r, b, r.N(200, 3000))
	}
	r.NeedAtLeast("operations", 2000)
	r.NeedAtLeast("overlapping-pairs", 200)
	r.NeedAtLeast("lock-conflicts", 50)
	r.Assume("which coins a spent coin's lock flag shows is not part of the property (it is final and unavailable either way)")
	r.Finish()
}
