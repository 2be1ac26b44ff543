// Monitor of C01: coins of live trades are theirs alone.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

// lease is the time during which a trade certainly holds its coins: from the
// accept being known to the first event that may end it.
type lease struct {
	id        uuid.UUID
	acc       domain.SwapAccept
	coins     []sim.Outpoint
	from, end time.Time // end zero: never
	done      bool      // completed
	failed    bool      // failure acknowledged
	exp       int64
	txid      string
}

type spendOp struct {
	what   string
	s, e   time.Time
	coins  []sim.Outpoint
	pushed bool
}

type ledger struct {
	mu     sync.Mutex
	leases []*lease
	spends []spendOp
	log    []string
	t0     time.Time
}

func (l *ledger) note(f string, a ...interface{}) {
	l.log = append(l.log, fmt.Sprintf("%.3f ", time.Since(l.t0).Seconds())+fmt.Sprintf(f, a...))
}

func (l *ledger) endAt(x *lease, t time.Time) {
	l.mu.Lock()
	if x.end.IsZero() || t.Before(x.end) {
		x.end = t
	}
	l.mu.Unlock()
}

// slowUnspents widens the windows between reading and locking coins.
type slowUnspents struct {
	domain.UnspentRepository
	g  *sim.Rng
	mu *sync.Mutex
}

func (s slowUnspents) nap() {
	s.mu.Lock()
	n := s.g.Intn(4)
	d := s.g.Intn(1500)
	s.mu.Unlock()
	if n == 0 {
		sim.Sleep(d)
	}
}

func (s slowUnspents) GetAvailableUnspentsForAddresses(ctx context.Context, a []string) ([]domain.Unspent, error) {
	r, err := s.UnspentRepository.GetAvailableUnspentsForAddresses(ctx, a)
	s.nap()
	return r, err
}

func (s slowUnspents) LockUnspents(ctx context.Context, k []domain.UnspentKey, id uuid.UUID) (int, error) {
	if ctx.Value("tx") == nil {
		s.nap()
	}
	return s.UnspentRepository.LockUnspents(ctx, k, id)
}

func (s slowUnspents) UnlockUnspents(ctx context.Context, k []domain.UnspentKey) (int, error) {
	s.nap()
	return s.UnspentRepository.UnlockUnspents(ctx, k)
}

func (s slowUnspents) GetUnspentWithKey(ctx context.Context, k domain.UnspentKey) (*domain.Unspent, error) {
	r, err := s.UnspentRepository.GetUnspentWithKey(ctx, k)
	s.nap()
	return r, err
}

type slowRepo struct {
	ports.RepoManager
	u domain.UnspentRepository
}

func (s slowRepo) UnspentRepository() domain.UnspentRepository { return s.u }

type env struct {
	r     *sim.Rec
	d     *sim.Daemon
	fc    *sim.FastChain
	l     *ledger
	mks   []application.Market
	round int
	exp   bool
	addr  string
}

func (e *env) opts(dir string) sim.DaemonOpts {
	exp := 1000 * time.Second
	if e.exp {
		exp = -57 * time.Second // the expiry check runs 3 s after accepting
	}
	g := e.r.Rng(fmt.Sprint("slow", e.round))
	return sim.DaemonOpts{Dir: dir, Chain: e.fc.Chain, Explorer: e.fc, Expiry: exp, FewAddrs: 2, Slippage: decimal.NewFromFloat(0.99),
		WrapRepo: func(rm ports.RepoManager) ports.RepoManager {
			return slowRepo{rm, slowUnspents{rm.UnspentRepository(), g, &sync.Mutex{}}}
		}}
}

func (e *env) market(quote string, bases, quotes []uint64) bool {
	mk, _, err := e.d.NewMarket(quote, bases, quotes)
	if err == nil {
		err = e.d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: mk, Strategy: domain.StrategyTypePluggable})
	}
	if err == nil {
		err = e.d.Operator.UpdateMarketPrice(ctx, application.MarketWithPrice{Market: mk, Price: application.Price{
			BasePrice: decimal.NewFromFloat(0.01), QuotePrice: decimal.NewFromInt(100)}})
	}
	if err == nil {
		err = e.d.Operator.OpenMarket(ctx, mk.BaseAsset, mk.QuoteAsset)
	}
	if err != nil {
		e.r.Inconclusive("market: %s", err)
		return false
	}
	e.mks = append(e.mks, mk)
	return true
}

// propose trades at random; the ledger takes note of what was accepted.
func (e *env) propose(g *sim.Rng) *lease {
	mk := e.mks[g.Intn(len(e.mks))]
	base := uint64(10000 + g.Intn(60000))
	var rq domain.SwapRequest
	tt := application.TradeBuy
	if g.Bool() {
		rq = sim.FastRequest(g, "rq"+g.Str(8), mk.QuoteAsset, base*101, mk.BaseAsset, base)
	} else {
		tt = application.TradeSell
		rq = sim.FastRequest(g, "rq"+g.Str(8), mk.BaseAsset, base, mk.QuoteAsset, base*99)
	}
	before := time.Now()
	acc, fail, _, err := e.d.Trade.TradePropose(ctx, mk, tt, rq)
	at := time.Now()
	e.r.Count("proposals", 1)
	if err != nil || acc == nil {
		e.r.Count("not-accepted", 1)
		if fail != nil {
			e.r.Count("rejected", 1)
		}
		return nil
	}
	return e.accepted(rq.GetTransaction(), acc, before, at, g)
}

func (e *env) accepted(reqTx string, acc domain.SwapAccept, before, at time.Time, g *sim.Rng) *lease {
	t := e.d.TradeByAccept(acc.GetId())
	if t == nil {
		e.r.Violate("accept-not-stored", "the accepted trade is not in the storage")
		return nil
	}
	theirs, _ := sim.PsetInputs(reqTx)
	all, err := sim.PsetInputs(acc.GetTransaction())
	if err != nil {
		e.r.Violate("accept-unreadable", "the accepted transaction does not parse: %s", err)
		return nil
	}
	x := &lease{id: t.ID, acc: acc, from: at, txid: t.TxID}
	for _, c := range all {
		mine := true
		for _, o := range theirs {
			if o == c {
				mine = false
			}
		}
		if mine {
			x.coins = append(x.coins, c)
		}
	}
	if e.exp {
		// the trade expired as it was accepted: give it a life
		x.exp = time.Now().Unix() + 2
		if g.Intn(3) > 0 {
			x.exp += 1000
		}
		if err := e.d.ShiftExpiry(t, x.exp); err != nil {
			e.r.Inconclusive("shift: %s", err)
			return nil
		}
		x.from = time.Now()
		if time.Unix(x.exp, 0).Sub(time.Now()) < time.Minute {
			x.end = time.Unix(x.exp, 0)
		}
	}
	e.l.mu.Lock()
	e.l.leases = append(e.l.leases, x)
	e.l.note("accept %s coins %v (call from %.3f)", x.id.String()[:4], short(x.coins), before.Sub(e.l.t0).Seconds())
	e.l.mu.Unlock()
	e.r.Count("accepted", 1)
	return x
}

func short(c []sim.Outpoint) []string {
	r := []string{}
	for _, o := range c {
		r = append(r, fmt.Sprintf("%s:%d", o.Hash[:4], o.Index))
	}
	sort.Strings(r)
	return r
}

func (e *env) failTrade(x *lease) {
	e.l.endAt(x, time.Now())
	var f domain.SwapFail = &pbswap.SwapFail{Id: "f", MessageId: x.acc.GetId(), FailureCode: 3, FailureMessage: "no"}
	_, _, err := e.d.Trade.TradeComplete(ctx, nil, &f)
	e.r.Count("fail-calls", 1)
	e.l.mu.Lock()
	if err == nil {
		x.failed = true
	}
	e.l.note("fail %s err=%v", x.id.String()[:4], err)
	e.l.mu.Unlock()
}

func (e *env) complete(x *lease) {
	c := sim.FastComplete("c", x.acc)
	id, f, err := e.d.Trade.TradeComplete(ctx, &c, nil)
	e.r.Count("complete-calls", 1)
	e.l.mu.Lock()
	if err == nil && f == nil {
		x.done = true
		e.r.Count("completed", 1)
	}
	e.l.note("complete %s tx=%.4s err=%v", x.id.String()[:4], id, err)
	e.l.mu.Unlock()
}

func (e *env) withdraw(g *sim.Rng) {
	mk := e.mks[g.Intn(len(e.mks))]
	s := time.Now()
	req := application.WithdrawMarketReq{Market: mk, BalanceToWithdraw: application.Balance{BaseAmount: 1000 + uint64(g.Intn(30000))},
		Address: e.addr, MillisatPerByte: 100, Push: true}
	if g.Bool() {
		req.BalanceToWithdraw = application.Balance{BaseAmount: 1000, QuoteAmount: 100000 + uint64(g.Intn(3000000))}
	}
	raw, err := e.d.Operator.WithdrawMarketFunds(ctx, req)
	e.spent("withdraw", s, raw, err)
}

func (e *env) send(g *sim.Rng) {
	s := time.Now()
	raw, err := e.d.Wallet.SendToMany(ctx, application.SendToManyRequest{
		Outputs: []application.TxOut{{Asset: sim.LBTC, Value: int64(1000 + g.Intn(2000)), Address: e.addr}}, MillisatPerByte: 100, Push: true})
	e.spent("send", s, raw, err)
}

func (e *env) spent(what string, s time.Time, raw []byte, err error) {
	at := time.Now()
	e.r.Count(what+"-calls", 1)
	if err != nil {
		e.l.mu.Lock()
		e.l.note("%s: %s", what, err)
		e.l.mu.Unlock()
		return
	}
	tx, err := transaction.NewTxFromHex(fmt.Sprintf("%x", raw))
	if err != nil {
		e.r.Violate("bad-raw", "%s returns a transaction that does not parse: %s", what, err)
		return
	}
	op := spendOp{what: what, s: s, e: at, pushed: true}
	for _, in := range tx.Inputs {
		op.coins = append(op.coins, sim.Outpoint{Hash: sim.InHash(in), Index: in.Index})
	}
	e.l.mu.Lock()
	e.l.spends = append(e.l.spends, op)
	e.l.note("%s coins %v", what, short(op.coins))
	e.l.mu.Unlock()
	e.r.Count(what+"-done", 1)
}

// judge compares all leases and spends.
func (e *env) judge(final bool) {
	l := e.l
	l.mu.Lock()
	defer l.mu.Unlock()
	tail := func() string {
		n := len(l.log) - 60
		if n < 0 {
			n = 0
		}
		return fmt.Sprint(l.log[n:])
	}
	by := map[sim.Outpoint][]*lease{}
	pairs := 0
	for _, x := range l.leases {
		for _, c := range x.coins {
			for _, y := range by[c] {
				pairs++
				from := x.from
				if y.from.After(from) {
					from = y.from
				}
				alive := func(z *lease) bool { return z.end.IsZero() || z.end.After(from) || z.done }
				if alive(x) && alive(y) {
					e.r.Violate("shared-coin", "coin %s backs trades %s and %s at once: %s", c, x.id, y.id, tail())
				}
			}
			by[c] = append(by[c], x)
		}
		if len(x.coins) == 0 {
			e.r.Violate("no-coins", "trade %s was accepted with no coin of the wallet", x.id)
		}
		dup := map[sim.Outpoint]bool{}
		for _, c := range x.coins {
			if dup[c] {
				e.r.Violate("coin-twice", "trade %s spends coin %s twice", x.id, c)
			}
			dup[c] = true
		}
	}
	e.r.Count("coin-reuses", int64(pairs))
	spentBy := map[sim.Outpoint]string{}
	for _, s := range l.spends {
		for _, c := range s.coins {
			if o, ok := spentBy[c]; ok {
				e.r.Violate("spent-twice", "coin %s is spent by %s and by %s", c, o, s.what)
			}
			spentBy[c] = s.what
			for _, y := range by[c] {
				if y.done || y.end.IsZero() || y.end.After(s.e) {
					e.r.Violate("reserved-spent", "%s spends coin %s of trade %s: %s", s.what, c, y.id, tail())
				}
			}
		}
	}
}

// locks compares the stored locks with the ledger once nothing runs.
func (e *env) locks(when string, timers bool) {
	e.l.mu.Lock()
	defer e.l.mu.Unlock()
	now := time.Now()
	holder := map[sim.Outpoint]*lease{}
	byID := map[uuid.UUID]*lease{}
	for _, x := range e.l.leases {
		byID[x.id] = x
		if !x.done && x.end.IsZero() {
			for _, c := range x.coins {
				holder[c] = x
			}
		}
	}
	us := e.d.Unspents()
	seen := map[sim.Outpoint]domain.Unspent{}
	for _, u := range us {
		seen[sim.Outpoint{Hash: u.TxID, Index: u.VOut}] = u
	}
	for c, x := range holder {
		u, ok := seen[c]
		if !ok {
			e.r.Violate("coin-gone", "%s: coin %s of live trade %s is not in the wallet", when, c, x.id)
			continue
		}
		if u.Spent {
			e.r.Violate("live-spent", "%s: coin %s of live trade %s is marked spent: %v", when, c, x.id, e.l.log)
			continue
		}
		if !u.IsLocked() || *u.LockedBy != x.id {
			e.r.Violate("lock-lost", "%s: coin %s of live trade %s is locked by %v: %v", when, c, x.id, u.LockedBy, e.l.log)
		}
		e.r.Count("live-locks", 1)
	}
	for c, u := range seen {
		if u.Spent || !u.IsLocked() {
			continue
		}
		x := byID[*u.LockedBy]
		if x == nil {
			e.r.Violate("lock-unknown", "%s: coin %s is locked by %s, no accepted trade", when, c, u.LockedBy)
			continue
		}
		gone := x.failed || timers && !x.done && !x.end.IsZero() && now.Sub(x.end) > 5*time.Second
		if gone {
			e.r.Violate("lock-stays", "%s: coin %s is still locked by trade %s that ended: %v", when, c, x.id, e.l.log)
		}
	}
	for _, x := range e.l.leases {
		if !x.done {
			continue
		}
		for _, c := range x.coins {
			if u, ok := seen[c]; ok && !u.Spent {
				e.r.Violate("completed-unspent", "%s: coin %s of completed trade %s is not spent", when, c, x.id)
			}
		}
	}
}

func (e *env) storm(g *sim.Rng, workers, steps int, ops bool) bool {
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		wk := g.Fork()
		go func() {
			defer wg.Done()
			mine := []*lease{}
			for s := 0; s < steps; s++ {
				sim.Sleep(wk.Intn(2500))
				if e.exp {
					sim.Sleep(wk.Intn(400000))
				}
				switch k := wk.Intn(12); {
				case k < 6 || len(mine) == 0 && k < 10:
					if x := e.propose(wk); x != nil {
						mine = append(mine, x)
					}
				case k < 8:
					x := mine[wk.Intn(len(mine))]
					e.failTrade(x) // possibly failed or completed before
				case k < 9:
					x := mine[wk.Intn(len(mine))]
					e.complete(x)
				case k < 10:
					// whoever's trade
					e.l.mu.Lock()
					var x *lease
					if len(e.l.leases) > 0 {
						x = e.l.leases[wk.Intn(len(e.l.leases))]
					}
					e.l.mu.Unlock()
					if x != nil {
						if wk.Bool() {
							e.failTrade(x)
						} else {
							e.complete(x)
						}
					}
				default:
					if ops {
						if wk.Bool() {
							e.withdraw(wk)
						} else {
							e.send(wk)
						}
					} else if wk.Chance(3) {
						e.d.Operator.ReloadUtxos(ctx)
						e.r.Count("reloads", 1)
					}
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(150 * time.Second):
		e.r.Violate("stuck", "concurrent proposals, completions and failures do not end")
		return false
	}
}

func fast(r *sim.Rec, round int, kind string) {
	g := r.Rng(fmt.Sprint("fast", round))
	fc := sim.NewFastChain()
	e := &env{r: r, fc: fc, l: &ledger{t0: time.Now()}, round: round, exp: kind == "expiry"}
	var smu sync.Mutex
	sg := g.Fork()
	sim.UseFastSwaps(sim.FastParser{}, sim.FastFiller{Slow: func() {
		smu.Lock()
		d := sg.Intn(1200)
		smu.Unlock()
		sim.Sleep(d)
	}, Refuse: func() bool { smu.Lock(); defer smu.Unlock(); return sg.Chance(15) }})
	dir := ""
	if kind == "restart" {
		dir = filepath.Join(r.Dir, fmt.Sprint("db", round))
		os.MkdirAll(filepath.Join(dir, "main"), 0700)
		os.MkdirAll(filepath.Join(dir, "prices"), 0700)
	}
	d, err := sim.NewDaemon(e.opts(dir))
	if err == nil {
		err = d.Up()
	}
	if err != nil {
		r.Inconclusive("daemon: %s", err)
		return
	}
	e.d = d
	defer func() { e.d.Close() }()
	tr, _ := sim.NewTrader(fc.Chain)
	e.addr = tr.W.Address()
	vals := func(n int, v uint64) (o []uint64) {
		for i := 0; i < n; i++ {
			o = append(o, v/2+g.Range(0, v))
		}
		return
	}
	nf := 4 + g.Intn(5)
	if err := d.FundFee(vals(nf, 4000)...); err != nil {
		r.Inconclusive("fund: %s", err)
		return
	}
	for i := 0; i < 2; i++ {
		if !e.market(sim.NewAsset(), vals(3+g.Intn(3), 60000), vals(3+g.Intn(3), 6000000)) {
			return
		}
	}
	if kind == "ops" {
		a, _, err := d.Wallet.GenerateAddressAndBlindingKey(ctx)
		if err == nil {
			_, err = fc.Chain.Fund(true, sim.Pay{Addr: a, Asset: sim.LBTC, Value: 100000}, sim.Pay{Addr: a, Asset: sim.LBTC, Value: 3000})
		}
		if err != nil {
			r.Inconclusive("wallet: %s", err)
			return
		}
	}
	workers, steps := 6, 6
	if kind == "expiry" {
		workers, steps = 6, 8
	}
	if !e.storm(g, workers, steps, kind == "ops") {
		return
	}
	if kind == "ops" {
		for i := 0; i < 6; i++ {
			if i%2 == 0 {
				e.withdraw(g)
			} else {
				e.send(g)
			}
		}
	}
	if kind == "expiry" {
		time.Sleep(3500 * time.Millisecond)
	}
	settle := func() { time.Sleep(400 * time.Millisecond) }
	settle()
	e.judge(false)
	e.locks("after "+kind, kind == "expiry")
	if kind == "restart" {
		e.d.Close()
		d2, err := sim.NewDaemon(e.opts(dir))
		if err == nil {
			err = d2.Wallet.UnlockWallet(ctx, sim.Pass)
		}
		if err != nil {
			r.Inconclusive("restart: %s", err)
			return
		}
		e.d = d2
		// the coins are read again from the chain
		n := 0
		for _, m := range e.mks {
			_ = m
			n++
		}
		if err := d2.Operator.ReloadUtxos(ctx); err != nil {
			r.Inconclusive("reload: %s", err)
			return
		}
		settle()
		r.Count("restarts", 1)
		e.l.mu.Lock()
		e.l.note("restart")
		e.l.mu.Unlock()
		e.locks("after restart", false)
		if !e.storm(g, 6, 5, false) {
			return
		}
		settle()
		e.judge(false)
		e.locks("after restart and more", false)
	}
	key := fmt.Sprint(kind)
	e.l.mu.Lock()
	for _, x := range e.l.leases {
		key += fmt.Sprint(len(x.coins), x.done, x.failed)
	}
	for _, x := range e.l.leases {
		r.Eval(fmt.Sprint(key, x.id))
	}
	if round < 3 {
		r.Sample(map[string]interface{}{"kind": kind, "events": len(e.l.log), "first": e.l.log[:min(12, len(e.l.log))]})
	}
	e.l.mu.Unlock()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// real runs proposals with real transactions, several at a time.
func real(r *sim.Rec, rounds int) {
	sim.UseRealSwaps()
	ch := sim.NewChain()
	e := &env{r: r, l: &ledger{t0: time.Now()}}
	d, err := sim.NewDaemon(sim.DaemonOpts{Chain: ch, FewAddrs: 2, Expiry: 1000 * time.Second, Slippage: decimal.NewFromFloat(0.99)})
	if err == nil {
		err = d.Up()
	}
	if err != nil {
		r.Inconclusive("daemon: %s", err)
		return
	}
	e.d = d
	defer d.Close()
	if err := d.FundFee(3000, 3000, 3000, 3000); err != nil {
		r.Inconclusive("fund: %s", err)
		return
	}
	if !e.market(sim.NewAsset(), []uint64{50000, 60000, 70000}, []uint64{5000000, 6000000}) {
		return
	}
	mk := e.mks[0]
	for i := 0; i < rounds; i++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		got := []*sim.Proposal{}
		for k := 0; k < 3; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				tt := application.TradeBuy
				if k%2 == 1 {
					tt = application.TradeSell
				}
				before := time.Now()
				p, err := d.Propose(mk, tt, uint64(20000+1000*k), fmt.Sprint("real", i, k))
				r.Count("proposals", 1)
				if err != nil || p.Acc == nil {
					r.Count("not-accepted", 1)
					return
				}
				mu.Lock()
				got = append(got, p)
				mu.Unlock()
				if x := e.accepted(p.Req.Transaction, p.Acc, before, time.Now(), nil); x != nil {
					r.Count("real-accepted", 1)
					r.Eval("real" + x.id.String())
				}
			}()
		}
		wg.Wait()
		e.judge(false)
		e.locks("real", false)
		// fail one, so that its coins are used again
		e.l.mu.Lock()
		var v *lease
		for _, x := range e.l.leases {
			if x.end.IsZero() && !x.done {
				v = x
				break
			}
		}
		e.l.mu.Unlock()
		if v != nil {
			e.failTrade(v)
			time.Sleep(200 * time.Millisecond)
		}
	}
	e.judge(true)
	e.locks("real end", false)
}

func main() {
	r := sim.Start("concurrent proposals on two markets that share a fee account, with completions, repeated and foreign failures, expiries, withdrawals, sends, reloads and restarts; a ledger of which accepted trade holds which coin is compared with every accepted and spent transaction and with the stored locks; distinct: accepted trades")
	sim.UseFastEncrypter()
	domain.MnemonicStoreManager = &sim.MemStore{}
	kinds := []string{"plain", "plain", "restart", "ops", "expiry", "plain", "restart", "plain"}
	n := r.N(8, 64)
	for i := 0; i < n && !r.Violated(); i++ {
		fast(r, i, kinds[i%len(kinds)])
	}
	real(r, r.N(2, 10))
	r.NeedAtLeast("accepted", 60)
	r.NeedAtLeast("coin-reuses", 10)
	r.NeedAtLeast("live-locks", 20)
	r.NeedAtLeast("restarts", 1)
	r.NeedAtLeast("completed", 5)
	r.NeedAtLeast("real-accepted", 2)
	r.NeedAtLeast("withdraw-done", 1)
	r.Assume("runs other than the real ones use explicit unsigned transactions behind the repository's seams")
	r.Finish()
}
