// Monitor of C27: what a deposit claim credits.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

// out is one output of the chain as the harness made it.
type out struct {
	acc       int // account of the script: 0 fee, markets, -1 not a derived external address
	addr      string
	asset     string
	value     uint64
	confirmed bool
	opens     bool // the address's key unblinds it
	conf      bool // confidential
}

type coin struct {
	o                        out
	spent, locked, confirmed bool
}

type world struct {
	r       *sim.Rec
	g       *sim.Rng
	d       *sim.Daemon
	backend string
	outs    map[sim.Outpoint]*out
	ops     []sim.Outpoint
	lens    map[string]int
	coins   map[sim.Outpoint]*coin
	quote   map[int]string // market account -> quote asset, "" unfunded
	addrs   map[int][]string
	keys    map[string][]byte
	opened  map[sim.Outpoint]sim.Opened
	log     []string
	fault   int // explorer call to fail, counted down
}

func (w *world) bad(sig, f string, a ...interface{}) {
	l := w.log
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	w.r.Violate("C27/"+sig, "%s: %s; history: %s", w.backend, fmt.Sprintf(f, a...), strings.Join(l, " ; "))
}

// fund puts a transaction with outputs to the wanted accounts on the chain.
func (w *world) fund(n int, accs []int, assets []string) {
	var outs []*transaction.TxOutput
	var infos []*out
	confirmed := !w.g.Chance(4)
	for i := 0; i < n; i++ {
		a := accs[w.g.Intn(len(accs))]
		o := &out{acc: a, asset: assets[w.g.Intn(len(assets))], value: 1 + w.g.Log(40), confirmed: confirmed, opens: true, conf: w.g.Chance(2)}
		switch {
		case w.g.Chance(9): // somebody else's
			o.acc = -1
			scr := sim.P2WPKH(w.g.Bytes(20))
			outs = append(outs, sim.ExplicitOut(o.asset, o.value, scr))
			infos = append(infos, o)
			continue
		}
		o.addr = w.addrs[a][w.g.Intn(len(w.addrs[a]))]
		scr, err := sim.ScriptOf(o.addr)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if o.conf {
			pub := sim.BlindPub(o.addr)
			if w.g.Chance(12) { // blinded for somebody else
				other := w.addrs[a][0]
				for _, l := range w.addrs {
					for _, x := range l {
						if x != o.addr {
							other = x
						}
					}
				}
				if other != o.addr {
					pub, o.opens = sim.BlindPub(other), false
				}
			}
			t, err := sim.ConfOut(o.asset, o.value, scr, pub)
			if err != nil {
				panic("harness: " + err.Error())
			}
			outs = append(outs, t)
		} else {
			outs = append(outs, sim.ExplicitOut(o.asset, o.value, scr))
		}
		infos = append(infos, o)
	}
	ops, err := w.d.Chain.FundOuts(confirmed, outs...)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for i, op := range ops {
		w.outs[op] = infos[i]
		w.ops = append(w.ops, op)
	}
	w.lens[ops[0].Hash] = len(ops)
}

// verdict is what the claim of the outpoints must do.
func (w *world) verdict(fee bool, quote string, ops []sim.Outpoint, idx []int) (ok bool, acc int) {
	allowed := map[int]bool{}
	if fee {
		allowed[domain.FeeAccount] = true
	} else {
		for a, q := range w.quote {
			if q == quote {
				allowed[a] = true
			}
		}
		if len(allowed) == 0 {
			for a, q := range w.quote {
				if q == "" {
					allowed[a] = true
				}
			}
		}
	}
	acc = -1
	if len(ops) == 0 {
		return false, -1
	}
	assets := map[string]bool{}
	for i, op := range ops {
		if idx[i] < 0 || idx[i] > math.MaxUint32 {
			return false, -1
		}
		o := w.outs[sim.Outpoint{Hash: op.Hash, Index: uint32(idx[i])}]
		if o == nil || !o.confirmed || !o.opens || !allowed[o.acc] || acc >= 0 && o.acc != acc {
			return false, -1
		}
		acc = o.acc
		assets[o.asset] = true
	}
	if !fee && w.quote[acc] == "" {
		if len(assets) != 2 || !assets[sim.LBTC] {
			return false, -1
		}
		for a := range assets {
			for b, q := range w.quote {
				if q == a && b != acc {
					return false, -1
				}
			}
		}
	}
	return true, acc
}

func (w *world) apply(acc int, ops []sim.Outpoint) {
	for _, op := range ops {
		o := w.outs[op]
		if acc != domain.FeeAccount && w.quote[acc] == "" {
			for _, p := range ops {
				if a := w.outs[p].asset; a != sim.LBTC {
					w.quote[acc] = a
				}
			}
		}
		if c := w.coins[op]; c != nil {
			c.confirmed = true
		} else {
			w.coins[op] = &coin{o: *o, confirmed: true}
		}
	}
}

// compare checks coins and markets against the model; "" when they agree.
func (w *world) compare() string {
	got := map[sim.Outpoint]domain.Unspent{}
	for _, u := range w.d.Unspents() {
		k := sim.Outpoint{Hash: u.TxID, Index: u.VOut}
		if _, dup := got[k]; dup {
			return "coin " + k.String() + " is stored twice"
		}
		got[k] = u
	}
	for k, c := range w.coins {
		u, ok := got[k]
		if !ok {
			return "coin " + k.String() + " is missing"
		}
		scr, _ := sim.ScriptOf(c.o.addr)
		if u.AssetHash != c.o.asset || u.Value != c.o.value || !bytes.Equal(u.ScriptPubKey, scr) || u.Address != c.o.addr {
			return fmt.Sprintf("coin %s is stored as %d of %s on %s, it is %d of %s on %s", k, u.Value, u.AssetHash, u.Address, c.o.value, c.o.asset, c.o.addr)
		}
		if u.Spent != c.spent || u.Confirmed != c.confirmed || !u.Spent && u.Locked != c.locked {
			return fmt.Sprintf("coin %s spent=%v locked=%v confirmed=%v, must be %v %v %v", k, u.Spent, u.Locked, u.Confirmed, c.spent, c.locked, c.confirmed)
		}
		if c.o.conf {
			raw, _ := w.d.Chain.Out(k)
			if raw == nil {
				return "harness: no output " + k.String()
			}
			op, ok := w.opened[k]
			if !ok {
				if op, ok = sim.OpenOut(raw, w.keys[c.o.addr]); ok {
					w.opened[k] = op
				}
			}
			if !ok || !bytes.Equal(op.ValueBlinder, u.ValueBlinder) || !bytes.Equal(op.AssetBlinder, u.AssetBlinder) ||
				u.ValueCommitment != hex.EncodeToString(raw.Value) || u.AssetCommitment != hex.EncodeToString(raw.Asset) || !bytes.Equal(u.Nonce, raw.Nonce) {
				return fmt.Sprintf("coin %s cannot be proved with the stored blinders and commitments", k)
			}
		}
	}
	for k := range got {
		if w.coins[k] == nil {
			return "coin " + k.String() + " was credited"
		}
	}
	l, err := w.d.Operator.ListMarket(ctx)
	if err != nil {
		return "ListMarket: " + err.Error()
	}
	if len(l) != len(w.quote) {
		return fmt.Sprintf("%d markets, must be %d", len(l), len(w.quote))
	}
	for _, m := range l {
		q, ok := w.quote[int(m.AccountIndex)]
		base := ""
		if q != "" {
			base = sim.LBTC
		}
		if !ok || m.Market.QuoteAsset != q || m.Market.BaseAsset != base {
			return fmt.Sprintf("market %d trades %.6s/%.6s, must be %.6s/%.6s", m.AccountIndex, m.Market.BaseAsset, m.Market.QuoteAsset, base, q)
		}
	}
	return ""
}

// settle waits for the coins of accepted claims and checks that nothing else
// changes afterwards.
func (w *world) settle(what string) bool {
	last := ""
	for i := 0; i < 2; i++ {
		if !sim.WaitFor(10*time.Second, func() bool { last = w.compare(); return last == "" }) {
			sig := "state"
			for _, s := range []string{"credited", "missing", "twice", "market", "prove", "stored as"} {
				if strings.Contains(last, s) {
					sig = s
				}
			}
			w.bad(strings.Replace(sig, " ", "-", -1), "%s: %s", what, last)
			return false
		}
		if i == 0 {
			sim.Sleep(1500)
		}
	}
	return true
}

func (w *world) claim(fee bool, quote string, ops []sim.Outpoint, idx []int) error {
	list := make([]application.TxOutpoint, len(ops))
	for i := range ops {
		list[i] = application.TxOutpoint{Hash: ops[i].Hash, Index: idx[i]}
	}
	if fee {
		return w.d.Operator.ClaimFeeDeposit(ctx, list)
	}
	return w.d.Operator.ClaimMarketDeposit(ctx, application.Market{BaseAsset: sim.LBTC, QuoteAsset: quote}, list)
}

// pick chooses outpoints to claim.
func (w *world) pick() (ops []sim.Outpoint, idx []int, shape string) {
	g := w.g
	byAcc := map[int][]sim.Outpoint{}
	for _, op := range w.ops {
		o := w.outs[op]
		if o.acc >= 0 && o.confirmed && o.opens {
			byAcc[o.acc] = append(byAcc[o.acc], op)
		}
	}
	var accs []int
	for a := range byAcc {
		accs = append(accs, a)
	}
	sort.Ints(accs)
	if len(accs) > 0 {
		l := byAcc[accs[g.Intn(len(accs))]]
		n := 1 + g.Intn(5)
		for i := 0; i < n; i++ {
			ops = append(ops, l[g.Intn(len(l))])
		}
		shape = "own"
	}
	if g.Chance(4) && len(ops) > 0 { // repeat
		ops = append(ops, ops[g.Intn(len(ops))])
		shape += "+repeat"
	}
	for _, o := range ops {
		idx = append(idx, int(o.Index))
	}
	put := func(o sim.Outpoint, i int) {
		p := g.Intn(len(ops) + 1)
		ops = append(ops[:p], append([]sim.Outpoint{o}, ops[p:]...)...)
		idx = append(idx[:p], append([]int{i}, idx[p:]...)...)
	}
	switch g.Intn(14) {
	case 0, 1: // any other output
		o := w.ops[g.Intn(len(w.ops))]
		put(o, int(o.Index))
		shape += "+any"
	case 2: // bad index of a known transaction
		o := w.ops[g.Intn(len(w.ops))]
		n := w.lens[o.Hash]
		v := []int{n, n + 1, -1, math.MinInt32, math.MaxInt32, int(o.Index) + 1<<32, -1 << 40}
		put(o, v[g.Intn(len(v))])
		shape += "+index"
	case 3:
		h := g.Hex(32)
		if g.Bool() {
			h = []string{"", "zz", g.Hex(31)}[g.Intn(3)]
		}
		put(sim.Outpoint{Hash: h}, 0)
		shape += "+unknown"
	case 4:
		ops, idx, shape = nil, nil, "empty"
	case 6, 7: // only coins of one unconfirmed transaction, or led or followed by them
		var pend []sim.Outpoint
		for _, o := range w.ops {
			if x := w.outs[o]; !x.confirmed && x.opens && x.acc >= 0 {
				pend = append(pend, o)
			}
		}
		if len(pend) == 0 {
			break
		}
		first := pend[g.Intn(len(pend))]
		var own []sim.Outpoint
		for _, o := range pend {
			if o.Hash == first.Hash && w.outs[o].acc == w.outs[first].acc {
				own = append(own, o)
			}
		}
		more := byAcc[w.outs[first].acc]
		if len(more) > 0 && g.Bool() {
			more = more[:1+g.Intn(len(more))]
			if g.Bool() {
				own = append(own, more...)
			} else {
				own = append(append([]sim.Outpoint{}, more...), own...)
			}
		}
		ops, idx, shape = own, nil, "pending"
		for _, o := range ops {
			idx = append(idx, int(o.Index))
		}
	case 5: // unconfirmed, foreign or wrongly blinded one
		for try := 0; try < 80; try++ {
			o := w.ops[g.Intn(len(w.ops))]
			if x := w.outs[o]; (!x.confirmed || !x.opens || x.acc < 0) && (x.acc < 0 || len(ops) == 0 || try > 40 || x.acc == w.outs[ops[0]].acc) {
				put(o, int(o.Index))
				shape += fmt.Sprintf("+bad(conf %v opens %v acc %v)", x.confirmed, x.opens, x.acc >= 0)
				break
			}
		}
	}
	return
}

func run(r *sim.Rec, g *sim.Rng, backend string, n, steps int) {
	c := sim.NewChain()
	d := sim.MustDaemon(sim.DaemonOpts{Chain: c, Repo: sim.OpenRepo(r, backend, n), NoListener: true})
	defer func() { d.Close(); domain.MnemonicStoreManager.Unset() }()
	if err := d.Up(); err != nil {
		panic("harness: " + err.Error())
	}
	w := &world{r: r, g: g, d: d, backend: backend, outs: map[sim.Outpoint]*out{}, lens: map[string]int{},
		coins: map[sim.Outpoint]*coin{}, quote: map[int]string{}, addrs: map[int][]string{}, keys: map[string][]byte{}, opened: map[sim.Outpoint]sim.Opened{}}
	fl, err := d.Operator.DepositFeeAccount(ctx, 2)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, a := range fl {
		w.addrs[domain.FeeAccount] = append(w.addrs[domain.FeeAccount], a.Address)
		w.keys[a.Address], _ = hex.DecodeString(a.BlindingKey)
	}
	nm := 3 + g.Intn(2)
	for i := 0; i < nm; i++ {
		l, err := d.Operator.DepositMarket(ctx, "", "", 1+g.Intn(2))
		if err != nil {
			panic("harness: " + err.Error())
		}
		acc := domain.MarketAccountStart + i
		if !d.HasAddrs(acc, l) {
			panic("harness: market account")
		}
		w.quote[acc] = ""
		for _, a := range l {
			w.addrs[acc] = append(w.addrs[acc], a.Address)
			w.keys[a.Address], _ = hex.DecodeString(a.BlindingKey)
		}
	}
	quotes := []string{sim.NewAsset(), sim.NewAsset(), sim.NewAsset()}
	w.fund(3, []int{0}, []string{sim.LBTC})
	for i := 0; i < steps && !r.Violated(); i++ {
		if i%4 == 0 {
			accs := []int{}
			for a := range w.addrs {
				accs = append(accs, a)
			}
			sort.Ints(accs)
			a := accs[g.Intn(len(accs))]
			pick := []int{a}
			if g.Chance(3) {
				pick = accs
			}
			as := []string{sim.LBTC, quotes[g.Intn(3)]}
			if g.Chance(3) {
				as = append(as, quotes[g.Intn(3)])
			}
			w.fund(2+g.Intn(3), pick, as)
		}
		if g.Chance(6) { // a pending transaction confirms
			for _, o := range w.ops {
				if !w.outs[o].confirmed {
					c.Confirm(o.Hash)
					for p, x := range w.outs {
						if p.Hash == o.Hash {
							x.confirmed = true
						}
					}
					break
				}
			}
		}
		// the wallet uses some of its coins
		if ks := w.known(); len(ks) > 0 && g.Chance(4) {
			k := ks[g.Intn(len(ks))]
			uk := domain.UnspentKey{TxID: k.Hash, VOut: k.Index}
			x := w.coins[k]
			switch {
			case g.Bool() && !x.spent && !x.locked && x.confirmed:
				if n, err := d.Repo.UnspentRepository().LockUnspents(ctx, []domain.UnspentKey{uk}, uuid.New()); err == nil && n == 1 {
					x.locked = true
					w.log = append(w.log, "lock "+k.String()[:6])
				}
			case !x.spent:
				if _, err := d.Repo.UnspentRepository().SpendUnspents(ctx, []domain.UnspentKey{uk}); err == nil {
					x.spent = true
					w.log = append(w.log, "spend "+k.String()[:6])
				}
			}
		}
		// the wallet learns of a coin before it confirms
		if g.Chance(8) {
			for _, o := range w.ops {
				x := w.outs[o]
				if x.acc >= 0 && !x.conf && w.coins[o] == nil {
					scr, _ := sim.ScriptOf(x.addr)
					if err := d.Repo.UnspentRepository().AddUnspents(ctx, []domain.Unspent{{TxID: o.Hash, VOut: o.Index, Value: x.value, AssetHash: x.asset, ScriptPubKey: scr, Address: x.addr}}); err == nil {
						w.coins[o] = &coin{o: *x}
						w.log = append(w.log, "pending "+o.String()[:6])
					}
					break
				}
			}
		}
		ops, idx, shape := w.pick()
		fee := g.Chance(5)
		quote := quotes[g.Intn(3)]
		if len(ops) > 0 && idx[0] >= 0 {
			if x := w.outs[ops[0]]; x != nil && x.acc >= 0 && !g.Chance(5) {
				fee = x.acc == domain.FeeAccount
				if q := w.quote[x.acc]; q != "" {
					quote = q
				} else {
					for _, o := range ops {
						if y := w.outs[o]; y != nil && y.asset != sim.LBTC {
							quote = y.asset
						}
					}
				}
			}
		}
		if g.Chance(20) {
			quote = sim.NewAsset()
		}
		ok, acc := w.verdict(fee, quote, ops, idx)
		faulty := g.Chance(5)
		hit := false
		if faulty {
			left := g.Intn(1 + 2*len(ops))
			c.SetFault(func(op, arg string) error {
				if left--; left < 0 {
					hit = true
					return errors.New("explorer out of order")
				}
				return nil
			})
		}
		nconc := 1
		if !faulty && g.Chance(4) {
			nconc = 2 + g.Intn(3)
		}
		errs := make([]error, nconc)
		var wg sync.WaitGroup
		for k := 0; k < nconc; k++ {
			wg.Add(1)
			f := func(k int) {
				defer wg.Done()
				if nconc == 1 {
					errs[k] = w.claim(fee, quote, ops, idx)
					return
				}
				r.GuardV("C27/panic", fmt.Sprintf("concurrent claim of %v %v", ops, idx), func() { errs[k] = w.claim(fee, quote, ops, idx) })
			}
			if nconc == 1 {
				f(k)
			} else {
				go f(k)
			}
		}
		wg.Wait()
		c.SetFault(nil)
		what := fmt.Sprintf("claim(fee=%v quote=%.6s %s n=%d conc=%d idx=%v)=%v", fee, quote, shape, len(ops), nconc, idx, errs[0])
		w.log = append(w.log, what)
		r.Eval(fmt.Sprintf("%s fee=%v funded=%v ok=%v faulty=%v", shape, fee, acc >= 0 && w.quote[acc] != "", ok, faulty))
		if i%25 == 3 {
			r.Sample(what)
		}
		if hit {
			r.Count("claims with explorer failures", 1)
		}
		nok := 0
		for _, e := range errs {
			if e == nil {
				nok++
			}
		}
		switch {
		case hit && nok > 0:
			w.bad("accepted-on-failure", "%s although the explorer failed", what)
			return
		case hit:
			ok = false
		case !ok && nok > 0:
			w.bad("accepted", "%s was accepted: %v", what, ops)
			return
		case ok && nok != nconc:
			w.bad("refused", "%s was refused: %v: %v", what, ops, errs)
			return
		}
		if ok {
			if acc != 0 && w.quote[acc] == "" {
				r.Count("markets funded", 1)
			}
			fresh := 0
			for _, o := range ops {
				if w.coins[o] == nil {
					fresh++
				}
			}
			w.apply(acc, ops)
			r.Count("claims accepted", 1)
			r.Count("coins credited", int64(fresh))
			if fresh == 0 {
				r.Count("claims of known coins", 1)
			}
		} else {
			r.Count("claims refused", 1)
		}
		if !w.settle(what) {
			return
		}
	}
}

func (w *world) known() []sim.Outpoint {
	var l []sim.Outpoint
	for _, o := range w.ops {
		if w.coins[o] != nil {
			l = append(l, o)
		}
	}
	return l
}

func main() {
	r := sim.Start("a claim credits exactly the claimed coins")
	sim.UseFastEncrypter()
	defer r.Finish()
	g := r.Rng("c27")
	if sh := sim.Shard(); sh >= 0 {
		be := []string{"badger-mem", "inmemory"}[sh%2]
		r.GuardV("C27/panic", "claims on "+be, func() { run(r, g, be, sh, 110) })
		return
	}
	r.RunShards(r.N(8, 80))
	r.NeedAtLeast("claims accepted", 60)
	r.NeedAtLeast("claims refused", 100)
	r.NeedAtLeast("markets funded", 4)
	r.NeedAtLeast("claims of known coins", 5)
	r.NeedAtLeast("claims with explorer failures", 10)
	r.Assume("The explorer cannot tell whether an output was spent, so claiming an output spent before the daemon knew of it is not judged.")
}
