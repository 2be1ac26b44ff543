// Monitor of C06: quotes of the market making strategies.
package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
)

func bi(v uint64) *big.Int        { return new(big.Int).SetUint64(v) }
func rat(n, d *big.Int) *big.Rat  { return new(big.Rat).SetFrac(n, d) }
func ri(v uint64) *big.Rat        { return new(big.Rat).SetInt(bi(v)) }
func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func less(a, b *big.Rat) bool     { return a.Cmp(b) < 0 }
func floor(a *big.Rat) *big.Int   { return new(big.Int).Div(a.Num(), a.Denom()) }
func abs(a *big.Rat) *big.Rat     { return new(big.Rat).Abs(a) }

var (
	one    = big.NewRat(1, 1)
	maxU   = ri(math.MaxUint64)
	eps    = big.NewRat(1, 200000000) // half a unit of the eighth digit
	feeDen = big.NewInt(10000)
)

// want is what a quote must be: within [lo, hi], or an error if errOK; mustErr
// when there is no amount to serve.
type want struct {
	exact, lo, hi *big.Rat
	errOK         bool
	mustErr       bool
	why           string
}

// out bounds what a trader gets from reserve bout for amount a.
func out(bin, bout, fee, a uint64, feeIn bool) want {
	if bin == 0 || bout == 0 || a == 0 {
		return want{mustErr: true, why: "nothing to serve"}
	}
	net := bi(a)
	if feeIn {
		net = new(big.Int).Div(new(big.Int).Mul(net, bi(10000-fee)), feeDen)
	}
	if net.Sign() == 0 {
		return want{mustErr: true, why: "fee takes all"}
	}
	ex := rat(new(big.Int).Mul(bi(bout), net), new(big.Int).Add(bi(bin), net))
	tol := radd(rmul(ri(bout), eps), one)
	w := want{exact: ex, lo: rsub(ex, tol), hi: radd(ex, tol)}
	if !feeIn {
		f := big.NewRat(int64(10000-fee), 10000)
		w.lo, w.hi = rsub(rmul(w.lo, f), one), rmul(w.hi, f)
		w.exact = rmul(ex, f)
	}
	w.errOK = less(w.lo, one) || !less(w.hi, ri(bout))
	return w
}

// in bounds what a trader pays into reserve bin for amount a of bout.
func in(bin, bout, fee, a uint64, feeIn bool) want {
	if bin == 0 || bout == 0 || a == 0 || a >= bout {
		return want{mustErr: true, why: "not servable"}
	}
	tot := bi(a)
	if !feeIn {
		tot = new(big.Int).Div(new(big.Int).Mul(tot, bi(10000+fee)), feeDen)
	}
	if tot.Cmp(bi(bout)) >= 0 {
		return want{mustErr: true, why: "exceeds the reserve"}
	}
	ex := rat(new(big.Int).Mul(bi(bin), tot), new(big.Int).Sub(bi(bout), tot))
	tol := radd(rmul(ri(bin), eps), one)
	w := want{exact: ex, lo: rsub(ex, tol), hi: radd(ex, tol)}
	if feeIn {
		f := big.NewRat(int64(10000+fee), 10000)
		w.lo, w.hi, w.exact = rsub(rmul(w.lo, f), one), rmul(w.hi, f), rmul(ex, f)
	}
	w.errOK = less(w.lo, one) || !less(w.hi, maxU)
	if !less(w.lo, radd(maxU, one)) {
		w.mustErr, w.why = true, "exceeds 64 bits"
	}
	return w
}

// plugOut and plugIn are the same for the operator's price.
func plugOut(price decimal.Decimal, fee, a uint64) want {
	if a == 0 || price.Sign() <= 0 {
		return want{mustErr: true, why: "nothing to serve"}
	}
	g := rmul(ri(a), price.Rat())
	ex := rmul(g, big.NewRat(int64(10000-fee), 10000))
	w := want{exact: ex, lo: rsub(ex, big.NewRat(2, 1)), hi: ex}
	w.errOK = less(w.lo, one) || !less(g, maxU)
	return w
}

func plugIn(price decimal.Decimal, fee, a, bout uint64) want {
	if a == 0 || price.Sign() <= 0 || a >= bout {
		return want{mustErr: true, why: "not servable"}
	}
	ex := rmul(rmul(ri(a), price.Rat()), big.NewRat(int64(10000+fee), 10000))
	w := want{exact: ex, lo: rsub(ex, big.NewRat(3, 1)), hi: radd(ex, one)}
	w.errOK = less(w.lo, one) || !less(radd(w.hi, one), maxU)
	if !less(w.lo, radd(maxU, one)) {
		w.mustErr, w.why = true, "exceeds 64 bits"
	}
	return w
}

func judge(r *sim.Rec, lvl, dir string, w want, got uint64, err error, desc string) {
	if err != nil {
		r.Count(lvl+"_refused", 1)
		if !w.mustErr && !w.errOK {
			r.Violate(lvl+"-denied:"+dir, "refused (%s) what is worth %s: %s", err, w.exact.FloatString(2), desc)
		}
		return
	}
	r.Count(lvl+"_quotes", 1)
	if w.mustErr {
		r.Violate(lvl+"-served:"+dir, "quoted %d although %s: %s", got, w.why, desc)
		return
	}
	g := ri(got)
	if less(g, w.lo) || less(w.hi, g) {
		r.Violate(lvl+"-amount:"+dir, "quoted %d, exact %s (allowed %s..%s): %s",
			got, w.exact.FloatString(3), w.lo.FloatString(1), w.hi.FloatString(1), desc)
	}
}

func genBal(g *sim.Rng) uint64 {
	switch g.Intn(8) {
	case 0:
		return g.Range(0, 20)
	case 1:
		return 1 << uint(g.Intn(64))
	case 2:
		return math.MaxUint64 - uint64(g.Intn(3))
	case 3:
		return (1 << 63) - 2 + uint64(g.Intn(4))
	case 4:
		return []uint64{100000000, 650000000000, 21e14, 1000}[g.Intn(4)]
	default:
		return g.Log(64)
	}
}

func genAmount(g *sim.Rng, bin, bout uint64) uint64 {
	switch g.Intn(9) {
	case 0:
		return g.Range(0, 20)
	case 1:
		return bout - uint64(g.Intn(3))
	case 2:
		return bin
	case 3:
		return bout/2 + uint64(g.Intn(3))
	case 4:
		return genBal(g)
	case 5:
		return bin / (1 + uint64(g.Intn(1000)))
	case 6:
		return g.Range(1, bout)
	default:
		return bout / (1 + uint64(g.Intn(100000)))
	}
}

func genFee(g *sim.Rng) uint64 {
	return []uint64{0, 1, 25, 100, 5000, 9999, uint64(g.Intn(10000))}[g.Intn(7)]
}

type fq struct {
	v   uint64
	err error
}

func quoteF(r *sim.Rec, dirOut bool, o formula.BalancedReservesOpts, a uint64) (q fq, ok bool) {
	ok = r.GuardV("formula", fmt.Sprintf("%+v amount %d", o, a), func() {
		if dirOut {
			q.v, q.err = formula.BalancedReserves{}.OutGivenIn(o, a)
		} else {
			q.v, q.err = formula.BalancedReserves{}.InGivenOut(o, a)
		}
	})
	return
}

func formulaLevel(r *sim.Rec, n int) {
	g := r.Rng("formula")
	for i := 0; i < n; i++ {
		o := formula.BalancedReservesOpts{BalanceIn: genBal(g), BalanceOut: genBal(g), Fee: genFee(g), ChargeFeeOnTheWayIn: !g.Chance(4)}
		dirOut := g.Bool()
		a := genAmount(g, o.BalanceIn, o.BalanceOut)
		q, ok := quoteF(r, dirOut, o, a)
		if !ok {
			continue
		}
		dir := "in"
		w := want{}
		if dirOut {
			dir = "out"
			w = out(o.BalanceIn, o.BalanceOut, o.Fee, a, o.ChargeFeeOnTheWayIn)
		} else {
			w = in(o.BalanceIn, o.BalanceOut, o.Fee, a, o.ChargeFeeOnTheWayIn)
		}
		desc := fmt.Sprintf("%+v amount %d", o, a)
		judge(r, "formula", dir, w, q.v, q.err, desc)
		k := ""
		if q.err == nil {
			k = fmt.Sprintf("f%v%d/%d/%d/%d", dirOut, bl(o.BalanceIn), bl(o.BalanceOut), bl(a), o.Fee/500)
		}
		r.Eval(k)
		if q.err != nil {
			continue
		}
		if i < 3 {
			r.Sample(fmt.Sprintf("%s -> %d", desc, q.v))
		}
		if dirOut && q.v >= o.BalanceOut {
			r.Violate("formula-drains", "quote %d takes the whole reserve: %s", q.v, desc)
		}
		// product of the reserves, up to the precision of ratios
		if dirOut {
			after := rmul(radd(ri(o.BalanceIn), ri(a)), rsub(ri(o.BalanceOut), ri(q.v)))
			loss := rsub(rmul(ri(o.BalanceIn), ri(o.BalanceOut)), after)
			slack := rmul(radd(ri(o.BalanceIn), ri(a)), radd(rmul(ri(o.BalanceOut), eps), one))
			if less(slack, loss) {
				r.Violate("formula-product:out", "the product of the reserves falls: quote %d, %s", q.v, desc)
			}
		} else {
			after := rmul(radd(ri(o.BalanceIn), ri(q.v)), rsub(ri(o.BalanceOut), ri(a)))
			loss := rsub(rmul(ri(o.BalanceIn), ri(o.BalanceOut)), after)
			slack := rmul(radd(rmul(ri(o.BalanceIn), eps), big.NewRat(2, 1)), ri(o.BalanceOut))
			if less(slack, loss) {
				r.Violate("formula-product:in", "the product of the reserves falls: quote %d, %s", q.v, desc)
			}
		}
		// larger amounts and larger fees
		if d := g.Range(1, 1+a/uint64(1+g.Intn(50))); a+d > a {
			if p, ok := quoteF(r, dirOut, o, a+d); ok && p.err == nil {
				r.Count("formula_pairs", 1)
				if p.v < q.v {
					r.Violate("formula-monotonic:"+dir, "%d for the larger amount %d, %d: %s", p.v, a+d, q.v, desc)
				}
			}
		}
		if f := o.Fee + uint64(1+g.Intn(200)); f < 10000 {
			of := o
			of.Fee = f
			if p, ok := quoteF(r, dirOut, of, a); ok && p.err == nil {
				r.Count("formula_fee_pairs", 1)
				if dirOut && p.v > q.v || !dirOut && p.v < q.v {
					r.Violate("formula-fee:"+dir, "fee %d gives the trader %d, fee %d gives %d: %s", f, p.v, o.Fee, q.v, desc)
				}
			}
		}
	}
}

func bl(v uint64) int { return bi(v).BitLen() }

// market setup of a preview
type mkset struct {
	plug          bool
	fee           uint64
	fb, fq        uint64
	pb, pq        decimal.Decimal
	bbase, bquote uint64
}

func genFixed(g *sim.Rng, bb, bq uint64) (uint64, uint64) {
	if g.Chance(3) {
		return 0, 0
	}
	c := func(b uint64) uint64 {
		switch g.Intn(5) {
		case 0:
			return 1
		case 1:
			return uint64(g.Range(1, 1000))
		case 2:
			v := b >> 1
			if v > math.MaxInt64 {
				v = math.MaxInt64
			}
			return v/uint64(1+g.Intn(50)) + 1
		case 3:
			if g.Chance(4) {
				return math.MaxInt64
			}
			return 650
		default:
			return uint64(g.Range(1, 1<<30))
		}
	}
	return c(bb), c(bq)
}

func genPrice(g *sim.Rng) decimal.Decimal {
	switch g.Intn(7) {
	case 0:
		return decimal.New(int64(g.Range(1, 100)), 0)
	case 1:
		return decimal.New(int64(g.Log(50)), -8)
	case 2:
		return decimal.New(int64(g.Log(62)), 0)
	case 3:
		return decimal.New(1, -8)
	case 4:
		return decimal.New(int64(g.Log(40)), -int32(g.Intn(16)))
	case 5:
		return decimal.New(int64(g.Range(1, 9)), int32(g.Intn(20)))
	default:
		return decimal.New(int64(g.Range(1, 100000)), -2)
	}
}

// previewWant gives the bounds of a preview from the settings of the market.
func previewWant(s mkset, a uint64, isBase, isBuy bool) want {
	bin, bout := s.bbase, s.bquote
	if isBuy {
		bin, bout = s.bquote, s.bbase
	}
	takes := isBuy == isBase // amount is what the trader gets
	var w want
	switch {
	case s.plug && takes:
		p := s.pb
		if isBase {
			p = s.pq
		}
		w = plugIn(p, s.fee, a, bout)
	case s.plug:
		p := s.pb
		if isBase {
			p = s.pq
		}
		w = plugOut(p, s.fee, a)
	case takes:
		w = in(bin, bout, s.fee, a, true)
	default:
		w = out(bin, bout, s.fee, a, true)
	}
	if !s.plug && (s.bbase == 0 || s.bquote == 0) {
		w.mustErr, w.why = true, "no reserve"
	}
	mine, other := s.fb, s.fq
	if !isBase {
		mine, other = s.fq, s.fb
	}
	if a < mine {
		return want{mustErr: true, why: "less than the fixed fee"}
	}
	if w.mustErr {
		return w
	}
	f := ri(other)
	if takes {
		w.lo, w.hi, w.exact = radd(w.lo, f), radd(w.hi, f), radd(w.exact, f)
		if !less(radd(w.hi, one), maxU) {
			w.errOK = true
		}
		if !less(w.lo, radd(maxU, one)) {
			w.mustErr, w.why = true, "exceeds 64 bits"
		}
		return w
	}
	w.lo, w.hi, w.exact = rsub(w.lo, f), rsub(w.hi, f), rsub(w.exact, f)
	if less(w.lo, radd(one, one)) || !less(w.hi, ri(bout)) {
		w.errOK = true
	}
	if less(w.hi, one) {
		w.mustErr, w.why = true, "fees take all"
	} else if !less(w.lo, ri(bout)) {
		w.mustErr, w.why = true, "exceeds the reserve"
	}
	return w
}

func newMarket(s mkset) (*domain.Market, error) {
	m, err := domain.NewMarket(5, int64(s.fee))
	if err != nil {
		return nil, err
	}
	if err := m.FundMarket([]domain.OutpointWithAsset{{Asset: sim.LBTC}, {Asset: strings.Repeat("ab", 32)}}, sim.LBTC); err != nil {
		return nil, err
	}
	if s.plug {
		if err := m.MakeStrategyPluggable(); err != nil {
			return nil, err
		}
		m.ChangeBasePrice(s.pb)
		m.ChangeQuotePrice(s.pq)
	}
	if err := m.ChangeFixedFee(int64(s.fb), int64(s.fq)); err != nil {
		return nil, err
	}
	return m, m.MakeTradable()
}

func (s mkset) String() string {
	return fmt.Sprintf("pluggable=%v fee=%d fixed=%d/%d prices=%s/%s balances=%d/%d", s.plug, s.fee, s.fb, s.fq, s.pb, s.pq, s.bbase, s.bquote)
}

func checkPrice(r *sim.Rec, lvl string, s mkset, p domain.Prices) {
	if s.plug {
		if !p.BasePrice.Equal(s.pb) || !p.QuotePrice.Equal(s.pq) {
			r.Violate(lvl+"-price", "price %s/%s is not the operator's: %s", p.BasePrice, p.QuotePrice, s)
		}
		return
	}
	tol := big.NewRat(1, 100000000)
	if less(tol, abs(rsub(p.BasePrice.Rat(), rat(bi(s.bbase), bi(s.bquote))))) ||
		less(tol, abs(rsub(p.QuotePrice.Rat(), rat(bi(s.bquote), bi(s.bbase))))) {
		r.Violate(lvl+"-price", "spot price %s/%s is not the ratio of the reserves: %s", p.BasePrice, p.QuotePrice, s)
	}
}

func genSet(g *sim.Rng) mkset {
	s := mkset{plug: g.Chance(3), fee: genFee(g), bbase: genBal(g), bquote: genBal(g)}
	s.fb, s.fq = genFixed(g, s.bbase, s.bquote)
	if s.plug {
		s.pb, s.pq = genPrice(g), genPrice(g)
	}
	return s
}

func marketLevel(r *sim.Rec, n int) {
	g := r.Rng("market")
	for i := 0; i < n; i++ {
		s := genSet(g)
		isBase, isBuy := g.Bool(), g.Bool()
		bin, bout := s.bbase, s.bquote
		if isBuy {
			bin, bout = bout, bin
		}
		a := genAmount(g, bin, bout)
		m, err := newMarket(s)
		if err != nil {
			continue
		}
		desc := fmt.Sprintf("%s amount=%d isBase=%v isBuy=%v", s, a, isBase, isBuy)
		var p *domain.PreviewInfo
		if !r.GuardV("preview", desc, func() { p, err = m.Preview(s.bbase, s.bquote, a, isBase, isBuy) }) {
			continue
		}
		if err == nil && p == nil {
			r.Violate("preview-nil", "no preview and no error: %s", desc)
			continue
		}
		var got uint64
		if err == nil {
			got = p.Amount
			wantAsset := m.QuoteAsset
			if !isBase {
				wantAsset = m.BaseAsset
			}
			if p.Asset != wantAsset {
				r.Violate("preview-asset", "preview in asset %s: %s", p.Asset, desc)
			}
			checkPrice(r, "preview", s, p.Price)
		}
		dir := fmt.Sprintf("plug=%v,base=%v,buy=%v", s.plug, isBase, isBuy)
		w := previewWant(s, a, isBase, isBuy)
		judge(r, "preview", dir, w, got, err, desc)
		k := ""
		if err == nil {
			k = fmt.Sprintf("p%s/%d/%d/%d", dir, bl(bin), bl(bout), bl(a))
			if isBuy != isBase && got >= bout {
				r.Violate("preview-drains", "quote %d takes the whole reserve: %s", got, desc)
			}
			// fixed fees never help the trader
			s2 := s
			s2.fb, s2.fq = s.fb+1+uint64(g.Intn(1000)), s.fq+1+uint64(g.Intn(1000))
			if s2.fb <= math.MaxInt64 && s2.fq <= math.MaxInt64 {
				if m2, e := newMarket(s2); e == nil {
					if p2, e := m2.Preview(s.bbase, s.bquote, a, isBase, isBuy); e == nil {
						r.Count("preview_fee_pairs", 1)
						if isBuy == isBase && p2.Amount < got || isBuy != isBase && p2.Amount > got {
							r.Violate("preview-fixed-fee", "larger fixed fees give %d, not %d: %s", p2.Amount, got, desc)
						}
					}
				}
			}
			if d := g.Range(1, 1+a/uint64(1+g.Intn(50))); a+d > a {
				if p2, e := m.Preview(s.bbase, s.bquote, a+d, isBase, isBuy); e == nil {
					r.Count("preview_pairs", 1)
					if p2.Amount < got {
						r.Violate("preview-monotonic", "%d for the larger amount %d, %d: %s", p2.Amount, a+d, got, desc)
					}
				}
			}
			if i%7 == 0 {
				r.Sample(fmt.Sprintf("%s -> %d", desc, got))
			}
		}
		r.Eval(k)
	}
}

// serviceLevel asks the trade service for prices of markets whose coins,
// locks and settings change, each reply judged against the coins available.
func serviceLevel(r *sim.Rec, n int) {
	ctx := context.Background()
	sim.UseFastEncrypter()
	domain.MnemonicStoreManager = &sim.MemStore{}
	g := r.Rng("service")
	d := sim.MustDaemon(sim.DaemonOpts{NoListener: true, FewAddrs: 2, MarketFee: 100})
	defer d.Close()
	if err := d.FundFee(100000); err != nil {
		panic(err)
	}
	quote := sim.NewAsset()
	mk, acc, err := d.OpenedMarket(quote, []uint64{100000000}, []uint64{650000000000})
	if err != nil {
		panic(err)
	}
	info, _ := d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, acc)
	addr := info[0].Address
	ur := d.Repo.UnspentRepository()
	seq := 0
	for i := 0; i < n; i++ {
		// retire the previous coins
		old := []domain.UnspentKey{}
		for _, u := range d.Unspents() {
			if !u.IsSpent() {
				old = append(old, u.Key())
			}
		}
		ur.SpendUnspents(ctx, old)
		var s mkset
		s.plug = i%3 == 2
		s.fee = genFee(g)
		scale := []int{20, 40, 60}[g.Intn(3)]
		coins := []domain.Unspent{}
		var lockB, lockQ uint64
		for k := 0; k < 1+g.Intn(5); k++ {
			for _, a := range []string{sim.LBTC, quote} {
				seq++
				v := g.Log(scale)
				conf := !g.Chance(6)
				u := domain.Unspent{TxID: fmt.Sprintf("%064x", 1000+seq), VOut: uint32(k), Value: v, AssetHash: a, Address: addr, Confirmed: conf, ScriptPubKey: []byte{1}}
				coins = append(coins, u)
				if !conf {
					continue
				}
				if a == quote {
					s.bquote += v
				} else {
					s.bbase += v
				}
			}
		}
		// coins of another account and of the market under another asset
		coins = append(coins, domain.Unspent{TxID: fmt.Sprintf("%064x", 1<<40+seq), Value: 1 << 40, AssetHash: sim.LBTC, Address: "other", Confirmed: true})
		if err := ur.AddUnspents(ctx, coins); err != nil {
			r.Inconclusive("add unspents: %s", err)
			return
		}
		if g.Chance(2) {
			c := coins[g.Intn(len(coins)-1)]
			if c.Confirmed {
				if _, err := ur.LockUnspents(ctx, []domain.UnspentKey{c.Key()}, uuid.New()); err == nil {
					if c.AssetHash == quote {
						s.bquote -= c.Value
						lockQ += c.Value
					} else {
						s.bbase -= c.Value
						lockB += c.Value
					}
				}
			}
		}
		s.fb, s.fq = genFixed(g, s.bbase, s.bquote)
		if s.plug {
			s.pb, s.pq = genPrice(g), genPrice(g)
		}
		// configuring through the operator
		strat := domain.StrategyTypeBalanced
		if s.plug {
			strat = domain.StrategyTypePluggable
		}
		steps := []error{
			d.Operator.CloseMarket(ctx, sim.LBTC, quote),
			d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: mk, Strategy: strat}),
		}
		_, e1 := d.Operator.UpdateMarketPercentageFee(ctx, application.MarketWithFee{Market: mk, Fee: application.Fee{BasisPoint: int64(s.fee)}})
		_, e2 := d.Operator.UpdateMarketFixedFee(ctx, application.MarketWithFee{Market: mk, Fee: application.Fee{FixedBaseFee: int64(s.fb), FixedQuoteFee: int64(s.fq)}})
		steps = append(steps, e1, e2)
		if s.plug {
			steps = append(steps, d.Operator.UpdateMarketPrice(ctx, application.MarketWithPrice{Market: mk, Price: application.Price{BasePrice: s.pb, QuotePrice: s.pq}}))
		}
		steps = append(steps, d.Operator.OpenMarket(ctx, sim.LBTC, quote))
		bad := false
		for _, e := range steps {
			if e != nil {
				bad = true
				if i < 3 {
					r.Sample(fmt.Sprintf("setup refused: %s (%s)", e, s))
				}
			}
		}
		if bad {
			r.Count("setup_refused", 1)
			continue
		}
		for k := 0; k < 6; k++ {
			isBase, isBuy := g.Bool(), g.Bool()
			bin, bout := s.bbase, s.bquote
			if isBuy {
				bin, bout = bout, bin
			}
			a := genAmount(g, bin, bout)
			asset, tt := quote, application.TradeSell
			if isBase {
				asset = sim.LBTC
			}
			if isBuy {
				tt = application.TradeBuy
			}
			desc := fmt.Sprintf("%s amount=%d isBase=%v isBuy=%v (locked %d/%d)", s, a, isBase, isBuy, lockB, lockQ)
			var p *application.PriceWithFee
			var err error
			ok := r.GuardV("service", desc, func() { p, err = d.Trade.GetMarketPrice(ctx, mk, tt, a, asset) })
			if !ok {
				continue
			}
			var got uint64
			if err == nil {
				got = p.Amount
				if p.Balance.BaseAmount != s.bbase || p.Balance.QuoteAmount != s.bquote {
					r.Violate("service-balance", "balance %d/%d: %s", p.Balance.BaseAmount, p.Balance.QuoteAmount, desc)
				}
				if p.Fee.BasisPoint != int64(s.fee) || p.Fee.FixedBaseFee != int64(s.fb) || p.Fee.FixedQuoteFee != int64(s.fq) {
					r.Violate("service-fee", "fee %+v: %s", p.Fee, desc)
				}
				if (asset == quote) == (p.Asset == quote) {
					r.Violate("service-asset", "asset %s: %s", p.Asset, desc)
				}
				checkPrice(r, "service", s, domain.Prices(p.Price))
			}
			judge(r, "service", fmt.Sprintf("plug=%v,base=%v,buy=%v", s.plug, isBase, isBuy), previewWant(s, a, isBase, isBuy), got, err, desc)
			kk := ""
			if err == nil {
				kk = fmt.Sprintf("s%v%v%v/%d/%d/%d", s.plug, isBase, isBuy, bl(bin), bl(bout), bl(a))
			}
			r.Eval(kk)
		}
	}
}

func main() {
	r := sim.Start("random balances, amounts, fees, fixed fees and prices up to the 64-bit limits quoted by the formula, by the market and by the trade service over changing coins and settings, each quote judged against exact rational arithmetic; distinct: direction and magnitudes of quotes given")
	formulaLevel(r, r.N(90000, 4000000))
	marketLevel(r, r.N(90000, 4000000))
	ok, st := sim.Within(10*time.Minute, func() { serviceLevel(r, r.N(150, 1500)) })
	if !ok {
		r.Inconclusive("service level did not end: %s", st)
	}
	r.NeedAtLeast("formula_quotes", 10000)
	r.NeedAtLeast("preview_quotes", 10000)
	r.NeedAtLeast("service_quotes", 50)
	r.NeedAtLeast("formula_pairs", 5000)
	r.NeedAtLeast("formula_fee_pairs", 5000)
	r.NeedAtLeast("preview_pairs", 5000)
	r.Assume("ratios of reserves are computed with eight decimal digits: a quote may differ from the exact one by half a unit of the eighth digit of the reserve plus one unit")
	r.Finish()
}
