// Monitor of C19: when markets may be opened, priced, changed, funded and dropped.
package main

import (
	"context"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
)

var ctx = context.Background()

const maxPrice = 2099999997690000

// mkt is the specification's state of a market.
type mkt struct {
	base, quote  string
	open         bool
	balanced     bool
	bp, qp       string // prices, "0" when unset
	fee          int64
	fixB, fixQ   int64
	hasLiquidity bool
}

func (m *mkt) funded() bool { return m.quote != "" }
func (m *mkt) priced() bool { return m.bp != "0" || m.qp != "0" }

func shape(m *mkt) string {
	if m == nil {
		return "none"
	}
	return fmt.Sprintf("funded=%v open=%v balanced=%v priced=%v", m.funded(), m.open, m.balanced, m.priced())
}

func (m mkt) String() string {
	return fmt.Sprintf("%.6s/%.6s open=%v balanced=%v price=%s,%s fee=%d,%d,%d", m.base, m.quote, m.open, m.balanced, m.bp, m.qp, m.fee, m.fixB, m.fixQ)
}

// op is one operation on the markets.
type op struct {
	kind   string
	base   string
	quote  string
	acc    int
	a, b   int64
	pa, pb decimal.Decimal
	strat  int
}

func (o op) String() string {
	switch o.kind {
	case "pct", "fixed":
		return fmt.Sprintf("%s(%.6s,%d,%d)", o.kind, o.quote, o.a, o.b)
	case "price":
		return fmt.Sprintf("price(%.6s,%s,%s)", o.quote, o.pa, o.pb)
	case "strategy":
		return fmt.Sprintf("strategy(%.6s,%d)", o.quote, o.strat)
	case "drop":
		return fmt.Sprintf("drop(%d)", o.acc)
	}
	return fmt.Sprintf("%s(%.6s)", o.kind, o.quote)
}

const (
	refuse = iota // must be refused
	accept        // must succeed
	either        // no effect, either answer
)

// step tells what must happen to o in state m (nil: no such market) and
// returns the state after it, if accepted.
func step(m *mkt, o op) (want int, after *mkt) {
	if o.kind == "drop" {
		if m == nil {
			return either, nil
		}
		return accept, nil
	}
	if o.base != sim.LBTC {
		return refuse, m
	}
	if m == nil {
		if o.kind == "close" {
			return either, nil
		}
		return refuse, nil
	}
	n := *m
	switch o.kind {
	case "open":
		if m.open {
			return accept, m
		}
		if !m.funded() || !m.balanced && !m.priced() {
			return refuse, m
		}
		n.open = true
	case "close":
		n.open = false
	case "pct":
		if m.open || o.a < 0 || o.a > 9999 {
			return refuse, m
		}
		n.fee = o.a
	case "fixed":
		if m.open || o.a < 0 || o.b < 0 || (o.a == 0) != (o.b == 0) {
			return refuse, m
		}
		n.fixB, n.fixQ = o.a, o.b
	case "price":
		if o.pa.Sign() <= 0 || o.pb.Sign() <= 0 || o.pa.GreaterThan(decimal.NewFromInt(maxPrice)) || o.pb.GreaterThan(decimal.NewFromInt(maxPrice)) {
			return refuse, m
		}
		n.bp, n.qp = o.pa.String(), o.pb.String()
	case "strategy":
		if m.open || o.strat != int(domain.StrategyTypePluggable) && o.strat != int(domain.StrategyTypeBalanced) {
			return refuse, m
		}
		n.balanced = o.strat == int(domain.StrategyTypeBalanced)
		if !n.balanced {
			n.bp, n.qp = "0", "0"
		}
	default:
		panic("harness: " + o.kind)
	}
	return accept, &n
}

// apply runs the operation against the daemon.
func apply(d *sim.Daemon, o op) error {
	mk := application.Market{BaseAsset: o.base, QuoteAsset: o.quote}
	switch o.kind {
	case "open":
		return d.Operator.OpenMarket(ctx, o.base, o.quote)
	case "close":
		return d.Operator.CloseMarket(ctx, o.base, o.quote)
	case "pct":
		_, err := d.Operator.UpdateMarketPercentageFee(ctx, application.MarketWithFee{Market: mk, Fee: application.Fee{BasisPoint: o.a}})
		return err
	case "fixed":
		_, err := d.Operator.UpdateMarketFixedFee(ctx, application.MarketWithFee{Market: mk, Fee: application.Fee{FixedBaseFee: o.a, FixedQuoteFee: o.b}})
		return err
	case "price":
		return d.Operator.UpdateMarketPrice(ctx, application.MarketWithPrice{Market: mk, Price: application.Price{BasePrice: o.pa, QuotePrice: o.pb}})
	case "strategy":
		return d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: mk, Strategy: domain.StrategyType(o.strat)})
	case "drop":
		return d.Operator.DropMarket(ctx, o.acc)
	}
	panic("harness: " + o.kind)
}

func genOp(g *sim.Rng, base, quote string, acc int, drop bool) op {
	o := op{base: base, quote: quote, acc: acc}
	switch k := g.Intn(21); {
	case k < 5:
		o.kind = "open"
	case k < 9:
		o.kind = "close"
	case k < 12:
		o.kind = "pct"
		vs := []int64{0, 1, 9999, 10000, -1, math.MaxInt64, math.MinInt64, int64(g.Intn(10000)), int64(g.Intn(10000)), int64(g.Intn(10000))}
		o.a = vs[g.Intn(len(vs))]
	case k < 14:
		o.kind = "fixed"
		vs := []int64{0, 0, 1, -1, int64(g.Intn(5000)), int64(g.Intn(5000)), 1 + int64(g.Intn(100000)), math.MinInt64}
		o.a, o.b = vs[g.Intn(len(vs))], vs[g.Intn(len(vs))]
		if g.Chance(3) {
			o.a, o.b = 1+int64(g.Intn(2000)), 1+int64(g.Intn(2000))
		} else if g.Chance(4) {
			o.a, o.b = 0, 0
		}
	case k < 17:
		o.kind = "price"
		v := func() decimal.Decimal {
			switch g.Intn(12) {
			case 0:
				return decimal.Zero
			case 1:
				return decimal.NewFromInt(-5)
			case 2:
				return decimal.NewFromInt(maxPrice)
			case 3:
				return decimal.NewFromInt(maxPrice + 1)
			case 4:
				return decimal.New(1, -8)
			}
			return decimal.New(int64(1+g.Intn(1000000)), -int32(g.Intn(5)))
		}
		o.pa, o.pb = v(), v()
	case k < 20:
		o.kind = "strategy"
		o.strat = []int{int(domain.StrategyTypePluggable), int(domain.StrategyTypeBalanced), int(domain.StrategyTypeBalanced), int(domain.StrategyTypePluggable), int(domain.StrategyTypeUnbalanced), 77}[g.Intn(6)]
	default:
		if drop {
			o.kind = "drop"
		} else {
			o.kind = "open"
		}
	}
	return o
}

func boot(r *sim.Rec, backend string, n int) *sim.Daemon {
	c := sim.NewChain()
	c.Explicit = true
	d := sim.MustDaemon(sim.DaemonOpts{Chain: c, Repo: sim.OpenRepo(r, backend, n), FewAddrs: 1, NoListener: true})
	if err := d.Up(); err != nil {
		panic("harness: up: " + err.Error())
	}
	if _, err := d.Operator.DepositFeeAccount(ctx, 1); err != nil {
		panic("harness: fee account: " + err.Error())
	}
	return d
}

func stop(d *sim.Daemon) {
	d.Close()
	domain.MnemonicStoreManager.Unset()
}

func fromInfo(i application.MarketInfo) mkt {
	return mkt{base: i.Market.BaseAsset, quote: i.Market.QuoteAsset, open: i.Tradable,
		balanced: i.StrategyType == formula.BalancedReservesType,
		bp:       i.Price.BasePrice.String(), qp: i.Price.QuotePrice.String(),
		fee: i.Fee.BasisPoint, fixB: i.Fee.FixedBaseFee, fixQ: i.Fee.FixedQuoteFee}
}

// snapshot lists the markets as the operator sees them.
func snapshot(d *sim.Daemon) (map[int]mkt, error) {
	l, err := d.Operator.ListMarket(ctx)
	if err != nil {
		return nil, err
	}
	m := map[int]mkt{}
	for _, i := range l {
		if _, dup := m[int(i.AccountIndex)]; dup {
			return nil, fmt.Errorf("account %d listed twice", i.AccountIndex)
		}
		m[int(i.AccountIndex)] = fromInfo(i)
	}
	return m, nil
}

type world struct {
	r       *sim.Rec
	d       *sim.Daemon
	backend string
	m       map[int]*mkt
	addr    map[int]string
	liquid  map[int]map[string]uint64 // claimed coins
	log     []string
}

func (w *world) bad(sig, f string, a ...interface{}) {
	w.r.Violate("C19/"+sig+"/"+w.backend, "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(w.tail(), " ; "))
}

func (w *world) tail() []string {
	if len(w.log) > 25 {
		return w.log[len(w.log)-25:]
	}
	return w.log
}

// check compares everything the daemon shows with the model.
func (w *world) check(what string) bool {
	got, err := snapshot(w.d)
	if err != nil {
		w.bad("list", "%s: markets cannot be listed: %s", what, err)
		return false
	}
	w.r.Eval("listing")
	for a, e := range w.m {
		g, ok := got[a]
		if !ok {
			w.bad("market-lost", "%s: market of account %d vanished", what, a)
			return false
		}
		x := *e
		x.hasLiquidity = false
		if g != x {
			w.bad("market-state", "%s: market of account %d is [%s], must be [%s]", what, a, g, x)
			return false
		}
		if g.open && (!g.funded() || !g.balanced && !g.priced()) {
			w.bad("open-unready", "%s: open market of account %d is not ready: %s", what, a, g)
		}
	}
	if len(got) != len(w.m) {
		w.bad("market-extra", "%s: %d markets listed, must be %d", what, len(got), len(w.m))
		return false
	}
	pairs := map[string]int{}
	for a, g := range got {
		if g.quote == "" {
			continue
		}
		if b, dup := pairs[g.quote]; dup {
			w.bad("pair-twice", "%s: accounts %d and %d trade the same pair %.6s", what, a, b, g.quote)
		}
		pairs[g.quote] = a
	}
	// what traders see
	list, err := w.d.Trade.GetTradableMarkets(ctx)
	if err != nil {
		w.bad("tradable-list", "%s: GetTradableMarkets failed: %s", what, err)
		return false
	}
	w.r.Eval("tradable")
	var gs, es []string
	for _, l := range list {
		gs = append(gs, fmt.Sprintf("%s/%s %d,%d,%d", l.BaseAsset, l.QuoteAsset, l.BasisPoint, l.FixedBaseFee, l.FixedQuoteFee))
	}
	for _, e := range w.m {
		if e.open {
			es = append(es, fmt.Sprintf("%s/%s %d,%d,%d", e.base, e.quote, e.fee, e.fixB, e.fixQ))
		}
	}
	sort.Strings(gs)
	sort.Strings(es)
	if strings.Join(gs, "|") != strings.Join(es, "|") {
		w.bad("tradable-list", "%s: traders are shown %v, the open markets are %v", what, gs, es)
		return false
	}
	return true
}

// quotes asks the price of a market and compares with the model.
func (w *world) quotes(g *sim.Rng, quote string) bool {
	var m *mkt
	acc := -1
	for a, x := range w.m {
		if x.quote == quote && x.funded() {
			m, acc = x, a
		}
	}
	typ := application.TradeBuy
	if g.Bool() {
		typ = application.TradeSell
	}
	asset := sim.LBTC
	if g.Bool() {
		asset = quote
	}
	p, err := w.d.Trade.GetMarketPrice(ctx, application.Market{BaseAsset: sim.LBTC, QuoteAsset: quote}, typ, uint64(10000+g.Intn(20000)), asset)
	w.r.Eval("price-query")
	if err != nil {
		if m != nil && m.open && m.balanced && m.fixB < 10000 && m.fixQ < 10000 && w.liquid[acc][sim.LBTC] > 0 && w.liquid[acc][quote] > 0 {
			w.r.Count("refused quotes on open balanced markets", 1)
		}
		return true
	}
	if m == nil || !m.open {
		w.bad("quote-while-closed", "a price was quoted for market %.6s that is closed or missing", quote)
		return false
	}
	w.r.Count("quotes", 1)
	if p.Fee.BasisPoint != m.fee || p.Fee.FixedBaseFee != m.fixB || p.Fee.FixedQuoteFee != m.fixQ {
		w.bad("quote-fee", "quote of market %.6s shows fees %+v, the market has %s", quote, p.Fee, m)
		return false
	}
	if !m.balanced && (p.Price.BasePrice.String() != m.bp || p.Price.QuotePrice.String() != m.qp) {
		w.bad("quote-price", "quote of market %.6s shows price %s/%s, the operator set %s/%s", quote, p.Price.BasePrice, p.Price.QuotePrice, m.bp, m.qp)
		return false
	}
	return true
}

func history(r *sim.Rec, g *sim.Rng, backend string, n, ops int) {
	d := boot(r, backend, n)
	defer stop(d)
	w := &world{r: r, d: d, backend: backend, m: map[int]*mkt{}, addr: map[int]string{}, liquid: map[int]map[string]uint64{}}
	pairs := []string{}
	for i := 0; i < 4; i++ {
		pairs = append(pairs, sim.NewAsset())
	}
	byQuote := func(q string) (int, *mkt) {
		for a, x := range w.m {
			if x.quote == q {
				return a, x
			}
		}
		return -1, nil
	}
	for i := 0; i < ops && !r.Violated(); i++ {
		quote := pairs[g.Intn(len(pairs))]
		if g.Chance(30) {
			quote = sim.NewAsset()
		}
		base := sim.LBTC
		if g.Chance(40) {
			base = sim.NewAsset()
		}
		k := g.Intn(100)
		switch {
		case k < 7 && len(w.m) < 7: // new market
			top := domain.MarketAccountStart - 1
			for a := range w.m {
				if a > top {
					top = a
				}
			}
			l, err := d.Operator.DepositMarket(ctx, "", "", 1)
			w.log = append(w.log, fmt.Sprintf("new(%d)=%v", top+1, err))
			if err != nil || len(l) != 1 {
				w.bad("new-market", "new market refused: %v", err)
				return
			}
			w.m[top+1] = &mkt{balanced: true, bp: "0", qp: "0", fee: 25}
			w.addr[top+1] = l[0].Address
			if w.liquid[top+1] == nil {
				w.liquid[top+1] = map[string]uint64{}
			}
			r.Count("markets created", 1)
		case k < 10: // another address of an existing market
			a, m := byQuote(quote)
			l, err := d.Operator.DepositMarket(ctx, base, quote, 1)
			w.log = append(w.log, fmt.Sprintf("addr(%.6s,%.6s)=%v", base, quote, err))
			if ok := m != nil && base == sim.LBTC; ok != (err == nil) {
				w.bad("deposit", "address of market %.6s/%.6s: %v (market exists: %v)", base, quote, err, m != nil)
				return
			}
			if err == nil {
				if !d.HasAddrs(a, l) {
					w.bad("deposit-account", "address of market %.6s does not belong to account %d", quote, a)
				}
				w.addr[a] = l[0].Address
			}
		case k < 24 && len(w.m) > 0: // claim
			if !w.claim(g, pairs, byQuote) {
				return
			}
		default:
			acc, m := byQuote(quote)
			o := genOp(g, base, quote, acc, true)
			if o.kind == "drop" {
				o.acc = domain.MarketAccountStart + g.Intn(7)
				if g.Chance(8) {
					o.acc = g.Intn(1000) - 500
				}
				m, acc = w.m[o.acc], o.acc
			}
			err := apply(d, o)
			w.log = append(w.log, fmt.Sprintf("%s=%v", o, err))
			r.Eval(fmt.Sprintf("%s on %s", o, shape(m)))
			want, after := step(m, o)
			if err == nil && want == refuse {
				w.bad("accepted/"+o.kind, "%s was accepted, market before: %v", o, m)
				return
			}
			if err != nil && want == accept {
				w.bad("refused/"+o.kind, "%s was refused: %s; market before: %v", o, err, m)
				return
			}
			if err == nil && m != nil {
				r.Count("accepted "+o.kind, 1)
				if after == nil {
					delete(w.m, acc)
				} else {
					w.m[acc] = after
				}
			} else if err != nil {
				r.Count("refused "+o.kind, 1)
			}
		}
		if !w.check(w.log[len(w.log)-1]) {
			return
		}
		for _, q := range pairs {
			if g.Chance(3) && !w.quotes(g, q) {
				return
			}
		}
	}
	r.Count("histories", 1)
}

func (w *world) claim(g *sim.Rng, pairs []string, byQuote func(string) (int, *mkt)) bool {
	var accs []int
	for a := range w.m {
		accs = append(accs, a)
	}
	sort.Ints(accs)
	acc := accs[g.Intn(len(accs))]
	m := w.m[acc]
	quote := pairs[g.Intn(len(pairs))]
	if m.funded() && !g.Chance(3) {
		quote = m.quote
	}
	pays := []sim.Pay{{Addr: w.addr[acc], Asset: sim.LBTC, Value: 100000000}, {Addr: w.addr[acc], Asset: quote, Value: 500000000}}
	req := quote
	assets := "both"
	switch g.Intn(9) {
	case 0:
		pays, assets = pays[:1], "base only"
	case 1:
		pays, assets = pays[1:], "quote only"
	case 2:
		pays = append(pays, sim.Pay{Addr: w.addr[acc], Asset: sim.NewAsset(), Value: 5000})
		assets = "three"
	case 3: // foreign coin among them
		pays = append(pays, sim.Pay{Addr: w.addr[accs[g.Intn(len(accs))]], Asset: sim.LBTC, Value: 5000})
	case 4: // the coins of one pair claimed as another one that has no market
		req = sim.NewAsset()
	}
	ops, err := w.d.Chain.Fund(true, pays...)
	if err != nil {
		panic("harness: " + err.Error())
	}
	err = w.d.Operator.ClaimMarketDeposit(ctx, application.Market{BaseAsset: sim.LBTC, QuoteAsset: req}, sim.ToTxOutpoints(ops))
	w.log = append(w.log, fmt.Sprintf("claim(account %d, %s, %.6s as %.6s)=%v", acc, assets, quote, req, err))
	w.r.Eval(fmt.Sprintf("claim %s %v on %s", assets, req == quote, shape(m)))
	one := true
	for _, p := range pays {
		one = one && p.Addr == w.addr[acc]
	}
	reqAcc, reqM := byQuote(req)
	coinAcc, coinM := byQuote(quote)
	ok := one
	switch {
	case reqM != nil:
		ok = ok && reqAcc == acc
	default:
		ok = ok && !m.funded() && assets == "both" && (coinM == nil || coinAcc == acc)
	}
	if err == nil && !ok {
		w.bad("claim-accepted", "claim for account %d accepted (%s of %.6s, requested %.6s); market %s", acc, assets, quote, req, m)
		return false
	}
	if err != nil && ok && req == quote {
		w.bad("claim-refused", "claim for account %d refused: %s (%s of %.6s); market %s", acc, err, assets, quote, m)
		return false
	}
	if err == nil {
		w.r.Count("claims accepted", 1)
		if !m.funded() {
			n := *m
			n.base, n.quote = sim.LBTC, quote
			w.m[acc] = &n
			w.r.Count("markets funded", 1)
		}
		for _, p := range pays {
			w.liquid[acc][p.Asset] += p.Value
		}
		want := map[string]bool{}
		for _, o := range ops {
			want[o.String()] = true
		}
		if !sim.WaitFor(10*time.Second, func() bool {
			n := 0
			for _, u := range w.d.Unspents() {
				if want[fmt.Sprintf("%s:%d", u.TxID, u.VOut)] {
					n++
				}
			}
			return n == len(ops)
		}) {
			w.bad("claim-coins", "coins of the claim for account %d are missing", acc)
			return false
		}
	} else {
		w.r.Count("claims refused", 1)
	}
	return true
}

// rd is what a concurrent reader saw of a market: its fields without prices.
type rd struct {
	present bool
	m       mkt
}

// concurrent records a history of clients working on the same market and
// searches for an order of it that the specification allows. A second market
// nobody touches must stay the same.
func concurrent(r *sim.Rec, g *sim.Rng, backend string, n, rounds int) {
	d := boot(r, backend, n)
	defer stop(d)
	other := sim.NewAsset()
	if _, _, err := d.NewMarket(other, []uint64{1000000}, []uint64{1000000}); err != nil {
		panic("harness: " + err.Error())
	}
	for k := 0; k < rounds && !r.Violated(); k++ {
		quote := sim.NewAsset()
		_, acc, err := d.NewMarket(quote, []uint64{1000000}, []uint64{1000000})
		if err != nil {
			panic("harness: " + err.Error())
		}
		before, err := snapshot(d)
		if err != nil {
			panic("harness: " + err.Error())
		}
		init := before[acc]
		h := &sim.History{}
		clients, per := 2+g.Intn(4), 3+g.Intn(4)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		drop := g.Chance(4)
		for c := 0; c < clients; c++ {
			wg.Add(1)
			cg := g.Fork()
			go func(c int) {
				defer wg.Done()
				<-gate
				for i := 0; i < per; i++ {
					if cg.Chance(4) {
						h.Do(c, op{kind: "read"}, func() interface{} {
							s, err := snapshot(d)
							if err != nil {
								return rd{}
							}
							m, ok := s[acc]
							m.bp, m.qp = "", ""
							return rd{ok, m}
						})
						continue
					}
					o := genOp(cg, sim.LBTC, quote, acc, drop)
					h.Do(c, o, func() interface{} { return apply(d, o) })
				}
			}(c)
		}
		close(gate)
		wg.Wait()
		after, err := snapshot(d)
		if err != nil {
			r.Violate("C19/list/"+backend, "markets cannot be listed after concurrent changes: %s", err)
			return
		}
		fin, ok := after[acc]
		h.Do(99, op{kind: "final"}, func() interface{} { return rd{ok, fin} })
		var shp []string
		for _, o := range h.Ops {
			shp = append(shp, fmt.Sprintf("%s%d%v", o.In.(op).kind, o.Client, o.Out == nil))
		}
		r.Eval(strings.Join(shp, " "))
		if k%20 == 0 {
			r.Sample(shp)
		}
		r.Count("overlapping pairs", int64(sim.Overlaps(h.Ops)))
		r.Count("concurrent operations", int64(len(h.Ops)))
		model := sim.LinModel{
			Init: func() interface{} { c := init; return &c },
			Key: func(s interface{}) string {
				if m := s.(*mkt); m != nil {
					return m.String()
				}
				return "-"
			},
			Step: func(s, in, out interface{}) (bool, interface{}) {
				m, o := s.(*mkt), in.(op)
				if o.kind == "read" || o.kind == "final" {
					v := out.(rd)
					if v.present != (m != nil) {
						return false, s
					}
					if m == nil {
						return true, s
					}
					x := *m
					if o.kind == "read" {
						x.bp, x.qp = "", ""
					}
					return v.m == x, s
				}
				err, _ := out.(error)
				want, nm := step(m, o)
				if err != nil {
					// asked to retry: the change is not made
					return want != accept || strings.Contains(err.Error(), "retry"), s
				}
				if want == refuse {
					return false, s
				}
				if want == either {
					return true, s
				}
				return true, nm
			},
		}
		good, complete, tried := sim.Linearizable(model, h.Ops, 400000)
		r.Count("states searched", int64(tried))
		if !complete {
			r.Count("searches cut", 1)
		}
		if !good {
			var l []string
			for _, o := range h.Ops {
				l = append(l, fmt.Sprintf("[%d-%d %s -> %v]", o.Call, o.Ret, o.In, o.Out))
			}
			r.Violate("C19/concurrent/"+backend, "no order of the concurrent operations explains their outcomes; start [%s], end [%s] present=%v: %s", init, fin, ok, strings.Join(l, " "))
			return
		}
		for a, b := range before {
			if a != acc && after[a] != b {
				r.Violate("C19/other-market/"+backend, "market of account %d changed from [%s] to [%s] by operations on account %d", a, b, after[a], acc)
			}
		}
		if ok { // keep the listing short
			d.Operator.DropMarket(ctx, acc)
		}
	}
}

// race of claims: several unfunded accounts are given coins of the same pair
func claimRace(r *sim.Rec, g *sim.Rng, backend string, n, rounds int) {
	d := boot(r, backend, n)
	defer stop(d)
	for k := 0; k < rounds && !r.Violated(); k++ {
		nAcc := 2 + g.Intn(3)
		quote := sim.NewAsset()
		var mu sync.Mutex
		var addrs []string
		var wg sync.WaitGroup
		before, _ := snapshot(d)
		conc := g.Bool()
		for i := 0; i < nAcc; i++ {
			wg.Add(1)
			f := func() {
				defer wg.Done()
				l, err := d.Operator.DepositMarket(ctx, "", "", 1)
				if err != nil {
					r.Violate("C19/new-market/"+backend, "new market refused: %s", err)
					return
				}
				mu.Lock()
				addrs = append(addrs, l[0].Address)
				mu.Unlock()
			}
			if conc {
				go f()
			} else {
				f()
			}
		}
		wg.Wait()
		if r.Violated() {
			return
		}
		if conc {
			// concurrently created markets must be distinct accounts
			s, err := snapshot(d)
			if err != nil || len(s) != len(before)+nAcc {
				r.Violate("C19/new-market-shared/"+backend, "%d markets requested concurrently, %d created (%v)", nAcc, len(s)-len(before), err)
				return
			}
			r.Count("concurrent creations", 1)
		}
		gate := make(chan struct{})
		errs := make([]error, nAcc)
		for i := range addrs {
			ops, err := d.Chain.Fund(true, sim.Pay{Addr: addrs[i], Asset: sim.LBTC, Value: 1000}, sim.Pay{Addr: addrs[i], Asset: quote, Value: 1000})
			if err != nil {
				panic("harness: " + err.Error())
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				errs[i] = d.Operator.ClaimMarketDeposit(ctx, application.Market{BaseAsset: sim.LBTC, QuoteAsset: quote}, sim.ToTxOutpoints(ops))
			}(i)
		}
		close(gate)
		wg.Wait()
		s, err := snapshot(d)
		if err != nil {
			r.Violate("C19/list/"+backend, "markets cannot be listed: %s", err)
			return
		}
		funded, okc := 0, 0
		for _, m := range s {
			if m.quote == quote {
				funded++
			}
		}
		for _, e := range errs {
			if e == nil {
				okc++
			}
		}
		r.Eval("claim race")
		if funded != 1 || okc != 1 {
			r.Violate("C19/pair-twice/"+backend, "%d concurrent claims of the same pair for different accounts: %d accepted, %d markets of the pair", nAcc, okc, funded)
			return
		}
		for a, m := range s {
			if m.quote == quote || m.quote == "" {
				d.Operator.DropMarket(ctx, a)
			}
		}
	}
}

// proposals sends real proposals to markets that were closed, repriced or
// dropped after the quote.
func proposals(r *sim.Rec, g *sim.Rng, n int) {
	c := sim.NewChain()
	d := sim.MustDaemon(sim.DaemonOpts{Chain: c, Repo: sim.OpenRepo(r, "badger-mem", 900), FewAddrs: 2})
	defer stop(d)
	if err := d.Up(); err != nil {
		panic("harness: " + err.Error())
	}
	vals := []uint64{}
	for i := 0; i < 2*n+2; i++ {
		vals = append(vals, 100000)
	}
	if err := d.FundFee(vals...); err != nil {
		panic("harness: " + err.Error())
	}
	quote := sim.NewAsset()
	mk, acc, err := d.OpenedMarket(quote, []uint64{100000000, 100000000, 100000000, 100000000}, []uint64{100000000, 100000000, 100000000, 100000000})
	if err != nil {
		panic("harness: " + err.Error())
	}
	for i := 0; i < n && !r.Violated(); i++ {
		typ := []int{application.TradeBuy, application.TradeSell}[g.Intn(2)]
		base := uint64(10000 + g.Intn(100000))
		aP, p, aR, rr, err := sim.AmountsFor(d, mk, typ, base)
		if err != nil {
			r.Count("no quote", 1)
			continue
		}
		t, err := sim.NewTrader(c, sim.Pay{Asset: aP, Value: p + 5000})
		if err != nil {
			panic("harness: " + err.Error())
		}
		req, err := t.Request(fmt.Sprintf("p%d", i), aP, p, aR, rr)
		if err != nil {
			panic("harness: " + err.Error())
		}
		how := i % 3
		switch how {
		case 0:
			err = d.Operator.CloseMarket(ctx, sim.LBTC, quote)
		case 1: // closed, made pluggable without a price and reopened in vain
			if err = d.Operator.CloseMarket(ctx, sim.LBTC, quote); err == nil {
				err = d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: mk, Strategy: domain.StrategyTypePluggable})
			}
			if err == nil && d.Operator.OpenMarket(ctx, sim.LBTC, quote) == nil {
				r.Violate("C19/accepted/open/badger-mem", "a pluggable market without price was opened")
				return
			}
		}
		if err != nil {
			r.Violate("C19/refused/close/badger-mem", "market could not be closed: %s", err)
			return
		}
		accpt, _, _, err := d.Trade.TradePropose(ctx, mk, typ, req)
		r.Eval("proposal")
		taken := err == nil && accpt != nil
		if how < 2 {
			if taken {
				r.Violate("C19/proposal-while-closed", "a proposal was accepted while market %.6s was closed", quote)
				return
			}
			r.Count("proposals to closed markets", 1)
			if how == 1 {
				if err := d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: mk, Strategy: domain.StrategyTypeBalanced}); err != nil {
					r.Violate("C19/refused/strategy/badger-mem", "strategy of a closed market not changed: %s", err)
				}
			}
			if err := d.Operator.OpenMarket(ctx, sim.LBTC, quote); err != nil {
				r.Violate("C19/refused/open/badger-mem", "market could not be opened again: %s", err)
			}
			continue
		}
		if taken {
			r.Count("proposals accepted", 1)
		} else {
			r.Count("proposals refused", 1)
		}
	}
	_ = acc
}

func main() {
	r := sim.Start("markets trade only when funded, open and priced")
	sim.UseFastEncrypter()
	defer r.Finish()
	g := r.Rng("c19")
	n := 0
	bes := []string{"inmemory", "badger-mem"}
	if os.Getenv("C19_ONLY") == "" {
		for i := 0; i < r.N(8, 100) && !r.Violated(); i++ {
			n++
			be := bes[i%2]
			hg := g.Fork()
			r.GuardV("C19/panic", "history on "+be, func() { history(r, hg, be, n, 220) })
		}
	}
	for i := 0; i < r.N(4, 40) && !r.Violated(); i++ {
		n++
		be := bes[i%2]
		cg := g.Fork()
		r.GuardV("C19/panic", "concurrent operations on "+be, func() { concurrent(r, cg, be, n, 60) })
		n++
		r.GuardV("C19/panic", "concurrent claims on "+be, func() { claimRace(r, cg, be, n, 12) })
	}
	if !r.Violated() {
		pg := g.Fork()
		r.GuardV("C19/panic", "proposals", func() { proposals(r, pg, r.N(6, 24)) })
	}
	r.NeedAtLeast("histories", 6)
	r.NeedAtLeast("markets funded", 8)
	r.NeedAtLeast("accepted open", 30)
	r.NeedAtLeast("quotes", 30)
	r.NeedAtLeast("overlapping pairs", 100)
	r.NeedAtLeast("proposals to closed markets", 3)
	r.NeedAtLeast("proposals accepted", 1)
	r.Assume("A dropped market's account may be given to the next new market, and dropping an unknown market or closing an unknown one may be answered either way.")
}
