// Monitor of C02: accepted swaps move exactly the agreed amounts, at the
// previewed price, in the direction of the trade, on open markets only.
package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

type env struct {
	r        *sim.Rec
	d        *sim.Daemon
	slippage *big.Rat
	accepted int
	vetoed   bool // the filler of this proposal refused on purpose
}

type mkt struct {
	m   application.Market
	acc int
}

// ---- what the daemon holds ----

func (e *env) locked() map[sim.Outpoint]string {
	r := map[sim.Outpoint]string{}
	for _, u := range e.d.Unspents() {
		if u.LockedBy != nil && !u.Spent {
			r[sim.Outpoint{Hash: u.TxID, Index: u.VOut}] = u.LockedBy.String()
		}
	}
	return r
}

func same(a, b map[sim.Outpoint]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (e *env) infoOf(acc int) map[string]domain.AddressInfo {
	l, err := e.d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, acc)
	if err != nil {
		e.r.Inconclusive("addresses: %s", err)
	}
	m := map[string]domain.AddressInfo{}
	for _, i := range l {
		m[i.Script] = i
	}
	return m
}

// worth tells whether the amounts are worth the previewed price less the
// slippage, by either of the two previews.
func (e *env) worth(m application.Market, tt int, rq domain.SwapRequest) (bool, string) {
	base, quote := rq.GetAmountR(), rq.GetAmountP()
	if tt == application.TradeSell {
		base, quote = quote, base
	}
	lo := new(big.Rat).Sub(big.NewRat(1, 1), e.slippage)
	hi := new(big.Rat).Add(big.NewRat(1, 1), e.slippage)
	rat := func(u uint64) *big.Rat { return new(big.Rat).SetInt(new(big.Int).SetUint64(u)) }
	var why []string
	if pv, err := e.d.Trade.GetMarketPrice(ctx, m, tt, base, m.BaseAsset); err == nil && pv.Asset == m.QuoteAsset {
		x := rat(pv.Amount)
		why = append(why, fmt.Sprintf("preview for base: %d", pv.Amount))
		if tt == application.TradeBuy && rat(quote).Cmp(new(big.Rat).Mul(x, lo)) >= 0 {
			return true, ""
		}
		if tt == application.TradeSell && rat(quote).Cmp(new(big.Rat).Mul(x, hi)) <= 0 {
			return true, ""
		}
	}
	if pv, err := e.d.Trade.GetMarketPrice(ctx, m, tt, quote, m.QuoteAsset); err == nil && pv.Asset == m.BaseAsset {
		x := rat(pv.Amount)
		why = append(why, fmt.Sprintf("preview for quote: %d", pv.Amount))
		if tt == application.TradeBuy && rat(base).Cmp(new(big.Rat).Mul(x, hi)) <= 0 {
			return true, ""
		}
		if tt == application.TradeSell && rat(base).Cmp(new(big.Rat).Mul(x, lo)) >= 0 {
			return true, ""
		}
	}
	return false, strings.Join(why, ", ")
}

// propose sends one proposal and judges the answer.
func (e *env) propose(m application.Market, tt int, rq *pbswap.SwapRequest, kind string, theirKeys map[string][]byte) domain.SwapAccept {
	r := e.r
	locked := e.locked()
	avail := map[sim.Outpoint]domain.Unspent{}
	for _, u := range e.d.Unspents() {
		if !u.Spent && u.Confirmed && u.LockedBy == nil {
			avail[sim.Outpoint{Hash: u.TxID, Index: u.VOut}] = u
		}
	}
	stored, acc := e.d.MarketOf(m.QuoteAsset)
	open := stored != nil && stored.Tradable && stored.BaseAsset == m.BaseAsset
	okPrice, why := e.worth(m, tt, rq)
	what := fmt.Sprintf("%s: type %d, pays %d of %.6s.., asks %d of %.6s..", kind, tt, rq.GetAmountP(), rq.GetAssetP(), rq.GetAmountR(), rq.GetAssetR())
	var a domain.SwapAccept
	var f domain.SwapFail
	var err error
	e.vetoed = false
	if ok := r.GuardV("propose", what, func() { a, f, _, err = e.d.Trade.TradePropose(ctx, m, tt, rq) }); !ok {
		return nil
	}
	r.Count("proposals", 1)
	r.Count("kind-"+strings.SplitN(strings.SplitN(kind, "/", 2)[0], "-by", 2)[0], 1)
	if a == nil {
		r.Eval(kind + ":refused")
		r.Count("refused", 1)
		if err == nil && f == nil {
			r.Violate("no-answer", "%s: neither accept nor fail nor error", what)
		}
		if err == nil && f != nil {
			r.Count("fail-messages", 1)
			if f.GetMessageId() != rq.GetId() {
				r.Violate("fail-names-other", "%s: the fail message answers %q, the request is %q", what, f.GetMessageId(), rq.GetId())
			}
		}
		if (kind == "exact" || kind == "real") && !e.vetoed && e.canServe(acc, rq, avail) {
			why := fmt.Sprint(err)
			if f != nil {
				why = f.GetFailureMessage()
			}
			r.Violate("fair-refused", "%s: refused though it is at the previewed price and the market can serve it: %s", what, why)
		}
		if now := e.locked(); !same(now, locked) {
			r.Violate("refused-locks", "%s: refused, but coins locked changed from %d to %d", what, len(locked), len(now))
		}
		return nil
	}
	r.Eval(fmt.Sprintf("%s:%d:%d:%d", kind, tt, rq.GetAmountP(), rq.GetAmountR()))
	r.Count("accepted", 1)
	e.accepted++
	if err != nil || f != nil {
		r.Violate("two-answers", "%s: accepted along with %v %v", what, f, err)
	}
	if a.GetRequestId() != rq.GetId() {
		r.Violate("accept-names-other", "%s: the accept answers %q", what, a.GetRequestId())
	}
	if !open {
		r.Violate("accepted-not-open", "%s: accepted on a market that is not open or not this pair", what)
	}
	wantP, wantR := m.QuoteAsset, m.BaseAsset
	if tt == application.TradeSell {
		wantP, wantR = wantR, wantP
	}
	if rq.GetAssetP() != wantP || rq.GetAssetR() != wantR || (tt != application.TradeBuy && tt != application.TradeSell) {
		r.Violate("accepted-wrong-assets", "%s: accepted though the pair is base %.6s quote %.6s", what, m.BaseAsset, m.QuoteAsset)
	}
	if !okPrice {
		r.Violate("accepted-bad-price", "%s: accepted below the previewed price less slippage %s (%s)", what, e.slippage.FloatString(4), why)
	}
	e.account(what, acc, rq, a, avail, theirKeys)
	return a
}

// canServe tells whether the available coins cover what is asked and the fees.
func (e *env) canServe(acc int, rq domain.SwapRequest, avail map[sim.Outpoint]domain.Unspent) bool {
	sum := func(acc int, asset string) (t uint64) {
		info := e.infoOf(acc)
		for _, u := range avail {
			if _, ok := info[hex.EncodeToString(u.ScriptPubKey)]; ok && u.AssetHash == asset {
				t += u.Value
			}
		}
		return
	}
	return sum(acc, rq.GetAssetR()) >= rq.GetAmountR() && sum(domain.FeeAccount, sim.LBTC) >= 5000
}

// account opens the accepted transaction and adds it up.
func (e *env) account(what string, acc int, rq *pbswap.SwapRequest, a domain.SwapAccept, avail map[sim.Outpoint]domain.Unspent, theirKeys map[string][]byte) {
	r := e.r
	bad := func(sig, f string, x ...interface{}) {
		r.Violate(sig, "%s: %s", what, fmt.Sprintf(f, x...))
	}
	before, err := pset.NewPsetFromBase64(rq.GetTransaction())
	if err != nil {
		bad("accepted-malformed", "the proposal's transaction does not parse")
		return
	}
	after, err := pset.NewPsetFromBase64(a.GetTransaction())
	if err != nil {
		bad("accept-malformed", "the accepted transaction does not parse: %s", err)
		return
	}
	mk, fee := e.infoOf(acc), e.infoOf(domain.FeeAccount)
	net := map[string]map[string]*big.Int{"market": {}, "fee": {}, "trader": {}}
	add := func(who, asset string, v uint64, sign int64) {
		if net[who][asset] == nil {
			net[who][asset] = new(big.Int)
		}
		x := new(big.Int).SetUint64(v)
		net[who][asset].Add(net[who][asset], x.Mul(x, big.NewInt(sign)))
	}
	// inputs
	theirs := map[sim.Outpoint]bool{}
	for _, in := range before.UnsignedTx.Inputs {
		theirs[sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}] = true
	}
	seen := map[sim.Outpoint]bool{}
	var prevs []*transaction.TxOutput
	var daemonIns []int
	for i, in := range after.UnsignedTx.Inputs {
		op := sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}
		if seen[op] {
			bad("duplicate-input", "spends %s twice", op)
		}
		seen[op] = true
		if theirs[op] {
			w := after.Inputs[i].WitnessUtxo
			if w == nil {
				w = &transaction.TxOutput{}
			}
			if c, _ := e.d.Chain.Out(op); c != nil {
				w = c
			}
			prevs = append(prevs, w)
			o, ok := sim.OpenOut(w, theirKeys[hex.EncodeToString(w.Script)])
			if ok {
				add("trader", o.Asset, o.Value, -1)
			}
			continue
		}
		daemonIns = append(daemonIns, i)
		u, ok := avail[op]
		if !ok {
			bad("spends-unavailable", "spends %s, no available coin of the wallet", op)
			continue
		}
		out, by := e.d.Chain.Out(op)
		if out == nil || by != "" {
			bad("spends-unavailable", "spends %s, unknown to the chain or spent", op)
			continue
		}
		prevs = append(prevs, out)
		s := hex.EncodeToString(out.Script)
		who := ""
		var key []byte
		if i, ok := mk[s]; ok {
			who, key = "market", i.BlindingKey
		} else if i, ok := fee[s]; ok {
			who, key = "fee", i.BlindingKey
		} else {
			bad("spends-other-account", "spends %s of neither the market nor the fee account", op)
			continue
		}
		o, ok := sim.OpenOut(out, key)
		if !ok {
			bad("input-unopened", "the coin %s can not be opened with the daemon's key", op)
			continue
		}
		if o.Value != u.Value || o.Asset != u.AssetHash {
			bad("coin-recorded-wrong", "the coin %s is recorded as %d of %s and is %d of %s", op, u.Value, u.AssetHash, o.Value, o.Asset)
		}
		add(who, o.Asset, o.Value, -1)
	}
	for op := range theirs {
		if !seen[op] {
			bad("proposer-input-lost", "the proposer's input %s is gone", op)
		}
	}
	// outputs
	type want struct {
		script, asset string
		value         uint64
	}
	need := map[want]int{}
	for _, o := range before.UnsignedTx.Outputs {
		x, ok := sim.OpenOut(o, theirKeys[hex.EncodeToString(o.Script)])
		if ok {
			need[want{hex.EncodeToString(o.Script), x.Asset, x.Value}]++
		}
	}
	feeOut, fees := uint64(0), 0
	for i, o := range after.UnsignedTx.Outputs {
		s := hex.EncodeToString(o.Script)
		if s == "" {
			x, ok := sim.OpenOut(o, nil)
			if !ok || x.Asset != sim.LBTC {
				bad("fee-output", "output %d has no script and is no explicit LBTC fee", i)
			}
			fees++
			feeOut = x.Value
			continue
		}
		key := theirKeys[s]
		who := ""
		if x, ok := mk[s]; ok {
			who, key = "market", x.BlindingKey
		} else if x, ok := fee[s]; ok {
			who, key = "fee", x.BlindingKey
		}
		x, ok := sim.OpenOut(o, key)
		if !ok {
			bad("output-unopened", "output %d (%s) can not be opened with the key of its owner", i, who)
			continue
		}
		w := want{s, x.Asset, x.Value}
		if need[w] > 0 {
			need[w]--
			add("trader", x.Asset, x.Value, 1)
			continue
		}
		if who == "" {
			bad("foreign-output", "output %d pays %d of %s to a script neither proposed nor of the daemon", i, x.Value, x.Asset)
			continue
		}
		if x.Value == 0 {
			bad("zero-output", "output %d is worth nothing", i)
		}
		add(who, x.Asset, x.Value, 1)
	}
	for w, n := range need {
		if n > 0 {
			bad("proposer-output-lost", "the proposer's output of %d of %s is gone or changed", w.value, w.asset)
		}
	}
	if fees != 1 {
		bad("fee-output", "%d fee outputs", fees)
	}
	// the sums
	exp := map[string]map[string]*big.Int{"market": {}, "fee": {}}
	put := func(who, asset string, v uint64, sign int64) {
		if exp[who][asset] == nil {
			exp[who][asset] = new(big.Int)
		}
		x := new(big.Int).SetUint64(v)
		exp[who][asset].Add(exp[who][asset], x.Mul(x, big.NewInt(sign)))
	}
	put("market", rq.GetAssetP(), rq.GetAmountP(), 1)
	put("market", rq.GetAssetR(), rq.GetAmountR(), -1)
	put("fee", sim.LBTC, feeOut, -1)
	for _, who := range []string{"market", "fee"} {
		for _, asset := range []string{rq.GetAssetP(), rq.GetAssetR(), sim.LBTC} {
			g, w := net[who][asset], exp[who][asset]
			if g == nil {
				g = new(big.Int)
			}
			if w == nil {
				w = new(big.Int)
			}
			if g.Cmp(w) != 0 {
				bad(who+"-amount", "the %s account moves %s of %.6s.. instead of %s", who, g, asset, w)
			}
		}
		for asset := range net[who] {
			if asset != rq.GetAssetP() && asset != rq.GetAssetR() && asset != sim.LBTC {
				bad(who+"-amount", "the %s account moves asset %s", who, asset)
			}
		}
	}
	if strings.HasPrefix(what, "real") == false && !strings.HasPrefix(what, "hostile") {
		return
	}
	// as consensus sees it
	if len(prevs) == len(after.UnsignedTx.Inputs) {
		if err := sim.VerifyAmounts(prevs, after.UnsignedTx.Outputs); err != nil {
			bad("not-conserved", "the accepted transaction does not verify: %s", err)
		} else {
			r.Count("verified-amounts", 1)
		}
		for _, i := range daemonIns {
			if err := checkPartial(after, i, prevs[i]); err != nil {
				bad("not-signed", "daemon input %d: %s", i, err)
			} else {
				r.Count("verified-signatures", 1)
			}
		}
	}
	if feeOut < 30 || feeOut > 1500 {
		bad("network-fee", "network fee of %d for %d inputs and %d outputs", feeOut, len(after.UnsignedTx.Inputs), len(after.UnsignedTx.Outputs))
	}
}

// checkPartial verifies the signature of an input by putting it in a witness.
func checkPartial(p *pset.Pset, i int, prev *transaction.TxOutput) error {
	in := p.Inputs[i]
	tx := p.UnsignedTx.Copy()
	switch {
	case len(in.PartialSigs) == 1:
		tx.Inputs[i].Witness = transaction.TxWitness{in.PartialSigs[0].Signature, in.PartialSigs[0].PubKey}
	default:
		return fmt.Errorf("%d partial signatures", len(in.PartialSigs))
	}
	return sim.VerifyWitness(tx, i, prev)
}

// ---- explicit rounds ----

func slip(x float64) (*big.Rat, decimal.Decimal) {
	d := decimal.NewFromFloat(x)
	return d.Rat(), d
}

// around picks an amount close to or far from x.
func around(g *sim.Rng, x uint64, s *big.Rat) (uint64, string) {
	f, _ := s.Float64()
	edge := func(k float64) uint64 { return uint64(float64(x) * k) }
	switch g.Intn(10) {
	case 0, 1:
		return x, "exact"
	case 2:
		return edge(1-f) + uint64(g.Intn(3)), "low-edge"
	case 3:
		if v := edge(1 - f); v > 2 {
			return v - uint64(g.Intn(3)), "below-edge"
		}
		return x, "exact"
	case 4:
		return edge(1+f) - uint64(g.Intn(2)), "high-edge"
	case 5:
		return edge(1+f) + 1 + uint64(g.Intn(3)), "above-edge"
	case 6:
		return x / 2, "half"
	case 7:
		return x * 2, "double"
	case 8:
		return g.Log(40), "any"
	default:
		return x + uint64(g.Intn(5)) - 2, "near"
	}
}

func fast(r *sim.Rec, no, proposals int) {
	g := r.Rng(fmt.Sprint("fast", no))
	fc := sim.NewFastChain()
	s, sd := slip([]float64{0, 0.01, 0.05, 0.3}[no%4])
	var e *env
	sim.UseFastSwaps(sim.FastParser{}, sim.FastFiller{Refuse: func() bool {
		e.vetoed = g.Chance(12)
		return e.vetoed
	}})
	d, err := sim.NewDaemon(sim.DaemonOpts{Chain: fc.Chain, Explorer: fc, NoListener: true, FewAddrs: 2, Slippage: sd, Expiry: 1000 * time.Second})
	if err == nil {
		err = d.Up()
	}
	if err == nil {
		err = d.FundFee(5000, 6000, 7000, 8000, 9000, 10000, 11000, 12000)
	}
	if err != nil {
		r.Inconclusive("daemon: %s", err)
		return
	}
	defer d.Close()
	e = &env{r: r, d: d, slippage: s}
	var ms []mkt
	for i := 0; i < 2; i++ {
		q := sim.NewAsset()
		m, acc, err := d.NewMarket(q, spread(g, 6, 4_000_000_000), spread(g, 6, 4_000_000_000_00))
		if err == nil && i == 1 {
			err = d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: m, Strategy: domain.StrategyTypePluggable})
			if err == nil {
				bp := decimal.NewFromFloat(float64(1+g.Intn(1000)) / 1000)
				err = d.Operator.UpdateMarketPrice(ctx, application.MarketWithPrice{Market: m, Price: application.Price{
					BasePrice: bp, QuotePrice: decimal.NewFromInt(1).Div(bp)}})
			}
		}
		if err == nil {
			_, err = d.Operator.UpdateMarketPercentageFee(ctx, application.MarketWithFee{Market: m, Fee: application.Fee{BasisPoint: int64(g.Intn(200))}})
		}
		if err == nil && g.Bool() {
			_, err = d.Operator.UpdateMarketFixedFee(ctx, application.MarketWithFee{Market: m, Fee: application.Fee{FixedBaseFee: int64(g.Intn(500)), FixedQuoteFee: int64(g.Intn(50000))}})
		}
		if err == nil {
			err = d.Operator.OpenMarket(ctx, m.BaseAsset, m.QuoteAsset)
		}
		if err != nil {
			r.Inconclusive("market: %s", err)
			return
		}
		ms = append(ms, mkt{m, acc})
	}
	// a market with the same assets that exists but is closed
	closed, _, err := d.NewMarket(sim.NewAsset(), spread(g, 2, 100_000_000), spread(g, 2, 100_000_000))
	if err != nil {
		r.Inconclusive("market: %s", err)
		return
	}
	if err := d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: closed, Strategy: domain.StrategyTypeBalanced}); err != nil {
		r.Inconclusive("market: %s", err)
		return
	}
	for n := 0; n < proposals && e.accepted < 18; n++ {
		mk := ms[g.Intn(len(ms))]
		m := mk.m
		tt := application.TradeBuy
		if g.Bool() {
			tt = application.TradeSell
		}
		base := 2000 + g.Log(28)
		pv, err := d.Trade.GetMarketPrice(ctx, m, tt, base, m.BaseAsset)
		if err != nil || pv.Amount == 0 {
			continue
		}
		quote, kind := around(g, pv.Amount, s)
		if kind == "exact" && g.Chance(4) {
			// by the other preview
			if pv2, err := d.Trade.GetMarketPrice(ctx, m, tt, quote, m.QuoteAsset); err == nil {
				base, kind = around(g, pv2.Amount, s)
				kind += "-by-quote"
			}
		}
		if quote == 0 {
			continue
		}
		aP, p, aR, rr := m.QuoteAsset, quote, m.BaseAsset, base
		if tt == application.TradeSell {
			aP, p, aR, rr = aR, rr, aP, p
		}
		switch g.Intn(12) {
		case 0: // sold as if bought
			kind = "reversed"
			tt = application.TradeBuy + application.TradeSell - tt
		case 1:
			kind = "other-asset-paid"
			aP = sim.NewAsset()
		case 2:
			kind = "other-asset-asked"
			aR = ms[1-indexOf(ms, mk)].m.QuoteAsset
		case 3:
			kind = "same-asset"
			aP = aR
		case 4:
			kind = "unknown-type"
			tt = 2 + g.Intn(4)
		case 5:
			kind = "zero"
			if g.Bool() {
				p = 0
			} else {
				rr = 0
			}
		case 6:
			kind = "huge"
			if g.Bool() {
				p = ^uint64(0) - g.Log(20)
			} else {
				rr = ^uint64(0) - g.Log(20)
			}
		}
		on := m
		switch g.Intn(10) {
		case 0:
			kind += "/closed"
			on = closed
			if aP == m.QuoteAsset {
				aP = closed.QuoteAsset
			}
			if aR == m.QuoteAsset {
				aR = closed.QuoteAsset
			}
		case 1:
			kind += "/other-market"
			on = ms[1-indexOf(ms, mk)].m
		case 2:
			kind += "/swapped-market"
			on = application.Market{BaseAsset: m.QuoteAsset, QuoteAsset: m.BaseAsset}
		case 3:
			kind += "/other-base"
			on = application.Market{BaseAsset: sim.NewAsset(), QuoteAsset: m.QuoteAsset}
		case 4:
			if g.Bool() {
				kind += "/unknown-market"
				on = application.Market{BaseAsset: m.BaseAsset, QuoteAsset: sim.NewAsset()}
			}
		}
		rq := sim.FastRequest(g, "rq"+g.Str(8), aP, p, aR, rr)
		// the made-up coin that pays is opened from the request's transaction
		e.propose(on, tt, rq, kind, nil)
		if g.Chance(8) {
			// what was accepted is given up, so that the wallet does not run dry
			e.release()
		}
	}
}

func (e *env) release() {
	ids := map[string]bool{}
	for _, u := range e.d.Unspents() {
		if u.LockedBy != nil {
			ids[u.LockedBy.String()] = true
		}
	}
	ts, err := e.d.Repo.TradeRepository().GetAllTrades(ctx)
	if err != nil {
		return
	}
	for _, t := range ts {
		if ids[t.ID.String()] && t.IsAccepted() {
			fail := domain.SwapFail(&pbswap.SwapFail{Id: "f", MessageId: t.SwapAccept.ID, FailureCode: 1, FailureMessage: "x"})
			e.d.Trade.TradeComplete(ctx, nil, &fail)
		}
	}
	if !sim.WaitFor(20*time.Second, func() bool { return len(e.locked()) == 0 }) {
		e.r.Count("release-incomplete", 1)
	}
}

func indexOf(ms []mkt, m mkt) int {
	for i := range ms {
		if ms[i].m == m.m {
			return i
		}
	}
	return 0
}

func spread(g *sim.Rng, n int, total uint64) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = total/uint64(n) + g.Log(20)
	}
	return r
}

// ---- real, confidential rounds ----

func real(r *sim.Rec, proposals int) {
	g := r.Rng("real")
	shard := sim.Shard()
	s, sd := slip(0.05)
	d, err := sim.NewDaemon(sim.DaemonOpts{NoListener: true, FewAddrs: 2, Slippage: sd, Expiry: 1000 * time.Second})
	if err != nil {
		r.Inconclusive("daemon: %s", err)
		return
	}
	d.Chain.Explicit = shard%3 == 2
	if err = d.Up(); err == nil {
		if shard%2 == 0 {
			err = d.FundFee(2000, 2500, 3000, 900, 1000000)
		} else {
			err = d.FundFee(500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 100000)
		}
	}
	if err != nil {
		r.Inconclusive("daemon: %s", err)
		return
	}
	defer d.Close()
	e := &env{r: r, d: d, slippage: s}
	m, _, err := d.OpenedMarket(sim.NewAsset(), []uint64{1_000_000, 2_000_000, 3_000_000, 500_000, 250_000, 700_000}, []uint64{10_000_000, 20_000_000, 30_000_000, 5_000_000, 2_500_000, 7_000_000})
	if err != nil {
		r.Inconclusive("market: %s", err)
		return
	}
	for n := 0; n < proposals; n++ {
		tt := application.TradeBuy
		if g.Bool() {
			tt = application.TradeSell
		}
		base := uint64(20_000 + g.Intn(900_000))
		aP, p, aR, rr, err := sim.AmountsFor(d, m, tt, base)
		if err != nil || p == 0 || rr == 0 {
			continue
		}
		kind := "real"
		if n%4 == 3 {
			e.hostile(g, m, tt, aP, p, aR, rr)
			continue
		}
		t, err := sim.NewTrader(d.Chain)
		if err != nil {
			r.Inconclusive("trader: %s", err)
			return
		}
		if err := e.fundTrader(g, t, aP, p); err != nil {
			r.Inconclusive("trader: %s", err)
			return
		}
		rq, err := t.Request(fmt.Sprint("rq", n), aP, p, aR, rr)
		if err != nil {
			r.Inconclusive("request: %s", err)
			continue
		}
		keys := rq.InputBlindingKey
		a := e.propose(m, tt, rq, kind, keys)
		if a == nil {
			continue
		}
		r.Count("real-accepted", 1)
		// the trader signs: the whole must be what a node accepts
		c, err := t.Complete("c", a)
		if err != nil {
			r.Violate("trader-cannot-sign", "%s", err)
			continue
		}
		hx, _, err := sim.Finalize(c.Transaction)
		if err != nil {
			r.Violate("not-final", "the accepted transaction, signed by the trader, does not finalize: %s", err)
			continue
		}
		tx, err := transaction.NewTxFromHex(hx)
		if err != nil {
			r.Violate("not-final", "%s", err)
			continue
		}
		if err := d.Chain.Validate(tx); err != nil {
			r.Violate("not-valid", "a node would refuse the accepted transaction signed by the trader: %s", err)
			continue
		}
		r.Count("validated", 1)
		var fee uint64
		for _, o := range tx.Outputs {
			if len(o.Script) == 0 {
				x, _ := sim.OpenOut(o, nil)
				fee = x.Value
			}
		}
		vs := uint64(tx.VirtualSize())
		if fee*10+9 < vs {
			r.Violate("network-fee", "fee of %d for %d vbytes is below 0.1 sat per byte", fee, vs)
		}
		if fee*10 > vs*2+1000 {
			r.Violate("network-fee", "fee of %d for %d vbytes is more than twice the rate", fee, vs)
		}
		if g.Bool() {
			sc := domain.SwapComplete(c)
			if _, _, err := d.Trade.TradeComplete(ctx, &sc, nil); err == nil {
				r.Count("completed", 1)
			}
			sim.WaitFor(10*time.Second, func() bool { return e.noneLocked() })
		} else {
			e.release()
		}
	}
}

func (e *env) noneLocked() bool { return len(e.locked()) == 0 }

// fundTrader gives the trader the amount in some coins, explicit or not.
func (e *env) fundTrader(g *sim.Rng, t *sim.Trader, asset string, p uint64) error {
	n := 1 + g.Intn(3)
	left := p
	for i := 0; i < n; i++ {
		v := left
		if i < n-1 {
			v = left/2 + 1
		} else {
			if g.Bool() {
				v += uint64(g.Intn(100000))
			}
		}
		if v == 0 {
			v = 1
		}
		left -= min(left, v)
		if g.Chance(4) {
			_, s := t.W.Script()
			if _, err := e.d.Chain.FundOuts(true, sim.ExplicitOut(asset, v, s)); err != nil {
				return err
			}
			continue
		}
		o, err := sim.MakeOut(sim.Pay{Addr: t.W.Address(), Asset: asset, Value: v})
		if err != nil {
			return err
		}
		if _, err := e.d.Chain.FundOuts(true, o); err != nil {
			return err
		}
	}
	return nil
}

func min(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// hostile proposals claim other amounts than their transaction holds.
func (e *env) hostile(g *sim.Rng, m application.Market, tt int, aP string, p uint64, aR string, rr uint64) {
	t, err := sim.NewTrader(e.d.Chain, sim.Pay{Addr: "", Asset: aP, Value: p})
	if err != nil {
		return
	}
	_, scr := t.W.Script()
	rq, err := t.Request("h"+g.Str(6), aP, p, aR, rr)
	if err != nil {
		return
	}
	x, err := pset.NewPsetFromBase64(rq.Transaction)
	if err != nil {
		return
	}
	kind := ""
	setValue := func(o *transaction.TxOutput, v uint64) { o.Value, _ = elementsutil.SatoshiToElementsValue(v) }
	switch g.Intn(6) {
	case 0:
		kind = "takes-more"
		setValue(x.UnsignedTx.Outputs[0], rr+1+g.Log(16))
	case 1:
		kind = "extra-output"
		x.UnsignedTx.Outputs = append(x.UnsignedTx.Outputs, sim.ExplicitOut(aR, 1+g.Log(16), scr))
		x.Outputs = append(x.Outputs, pset.POutput{})
	case 2:
		kind = "pays-less"
		rq.AmountP = p + p/50
		rq.AmountP = p + 1
	case 3:
		kind = "no-output"
		x.UnsignedTx.Outputs = nil
		x.Outputs = nil
	case 4:
		kind = "asks-other-asset"
		x.UnsignedTx.Outputs[0].Asset = sim.AssetBytes(aP)
	case 5:
		kind = "claims-change"
		x.UnsignedTx.Outputs = append(x.UnsignedTx.Outputs, sim.ExplicitOut(aP, 1+p/10, scr))
		x.Outputs = append(x.Outputs, pset.POutput{})
	}
	b, err := x.ToBase64()
	if err != nil {
		return
	}
	rq.Transaction = b
	e.r.Count("hostile", 1)
	if a := e.propose(m, tt, rq, "hostile-"+kind, rq.InputBlindingKey); a != nil {
		e.release()
	}
}

func main() {
	sim.UseFastEncrypter()
	r := sim.Start("random proposals on random markets: at, around and far from the previewed price, reversed, other assets, closed and unknown markets, and real confidential swaps with hostile transactions; every answer judged, every accepted transaction opened and accounted; distinct: kinds of proposals with their amounts")
	r.Assume("previews are right (C06); secp256k1-zkp opens and verifies commitments correctly")
	if sim.Shard() >= 0 {
		fast(r, sim.Shard(), r.N(110, 400))
		if r.Thorough() {
			fast(r, sim.Shard()+1, 400)
		}
		sim.UseRealSwaps()
		real(r, r.N(10, 60))
		r.Finish()
	}
	r.RunShards(r.N(8, 24))
	r.NeedAtLeast("accepted", 60)
	r.NeedAtLeast("refused", 100)
	r.NeedAtLeast("real-accepted", 20)
	r.NeedAtLeast("validated", 20)
	r.NeedAtLeast("hostile", 8)
	r.Finish()
}
