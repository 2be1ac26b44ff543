// Monitor of C03: the lifecycle of trades, call by call and update by update.
package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
)

var ctx = context.Background()

// ---- every domain call against the lifecycle ----

func clone(t domain.Trade) domain.Trade {
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	t.TraderPubkey = cp(t.TraderPubkey)
	for _, s := range []*domain.Swap{&t.SwapRequest, &t.SwapAccept, &t.SwapComplete, &t.SwapFail} {
		s.Message = cp(s.Message)
	}
	return t
}

func sequences(r *sim.Rec, n int) {
	g := r.Rng("sequences")
	var refuse bool
	sim.UseFastSwaps(sim.FastParser{Refuse: func(string) bool { return refuse }}, sim.FastFiller{})
	quote := g.Hex(32)
	for i := 0; i < n; i++ {
		tr := domain.NewTrade()
		path := []string{}
		steps := 3 + g.Intn(10)
		settledSeen, deadSeen, refusedSeen := false, false, false
		var accTx string
		for s := 0; s < steps; s++ {
			before := clone(*tr)
			refuse = g.Chance(6)
			op, ok, code := "", false, error(nil)
			// mostly the next step of the lifecycle, otherwise anything
			pick := g.Intn(6)
			if g.Intn(5) < 3 {
				switch {
				case tr.Status.Code < domain.Proposal:
					pick = 0
				case tr.Status.Code == domain.Proposal:
					pick = 1
				case tr.Status.Code == domain.Accepted:
					pick = []int{2, 2, 2, 3, 5}[g.Intn(5)]
				case tr.Status.Code == domain.Completed:
					pick = 3
				}
			}
			if pick == 4 && tr.IsEmpty() {
				pick = 0 // there is nothing to fail yet
			}
			txArg := sim.FastSigned(accTx)
			good := true
			var res *domain.CompleteResult
			switch pick {
			case 0:
				op = "propose"
				rq := sim.FastRequest(g, g.Str(8), quote, g.Log(40), sim.LBTC, g.Log(40))
				ok, code = tr.Propose(rq, quote, 25, int64(g.Intn(50)), int64(g.Intn(50)), g.Bytes(4))
			case 1:
				op = "accept"
				accTx = sim.FastRequest(g, "x", quote, 5, sim.LBTC, 6).Transaction
				if before.Status.Code >= domain.Accepted {
					// a repeated accept must not replace the accepted transaction
					_, code = tr.Accept(accTx, nil, nil, 100)
					ok = true
					if a := tr.SwapAcceptMessage(); a != nil {
						accTx = a.GetTransaction()
					}
				} else {
					exp := uint64(1000)
					if g.Chance(4) {
						exp = 0
					}
					ok, code = tr.Accept(accTx, nil, nil, exp)
				}
			case 2:
				op = "complete"
				if g.Chance(5) {
					txArg, good = "signed:"+g.Str(10), false
				}
				res, code = tr.Complete(txArg)
				ok = res != nil && res.OK
			case 3:
				op = "settle"
				ok, code = tr.Settle(uint64(1 + g.Intn(1<<30)))
			case 4:
				op = "fail"
				tr.Fail(g.Str(5), 1+g.Intn(9), "why")
				ok = true
			case 5:
				op = "expire"
				if g.Bool() && tr.ExpiryTime > 0 {
					tr.ExpiryTime -= 2000 // time passes
					before.ExpiryTime = tr.ExpiryTime
				}
				ok, code = tr.Expire()
			}
			after := *tr
			path = append(path, fmt.Sprintf("%s->%s", op, sim.St(after.Status)))
			judge(r, op, before, after, ok, code, refuse || !good, strings.Join(path, " "))
			if op == "complete" && ok && (res.TxID != after.TxID || res.TxHex != after.TxHex) {
				r.Violate("complete-result", "complete answered %s, the trade holds %s (%s)", res.TxID, after.TxID, strings.Join(path, " "))
			}
			if settledSeen && !after.IsSettled() {
				r.Violate("left-settled", "%s", strings.Join(path, " "))
			}
			if deadSeen && (sim.St(after.Status) == "accepted" || sim.St(after.Status) == "completed") {
				r.Violate("revived", "%s", strings.Join(path, " "))
			}
			if refusedSeen && after.Status.Code > domain.Proposal {
				r.Violate("rejected-proposal-advanced", "%s", strings.Join(path, " "))
			}
			settledSeen = settledSeen || after.IsSettled()
			deadSeen = deadSeen || after.Status.Failed
			refusedSeen = refusedSeen || sim.St(after.Status) == "proposal-failed"
			r.Count("calls", 1)
		}
		r.Eval(strings.Join(path, " "))
		if i < 2 {
			r.Sample(strings.Join(path, " "))
		}
	}
}

// judge checks one domain call against the lifecycle.
func judge(r *sim.Rec, op string, b, a domain.Trade, ok bool, err error, refused bool, path string) {
	bs, as := sim.St(b.Status), sim.St(a.Status)
	bad := func(sig, f string, x ...interface{}) {
		r.Violate(op+":"+sig, "%s: %s -> %s: %s [%s]", op, bs, as, fmt.Sprintf(f, x...), path)
	}
	if lost := sim.Kept(b, a); len(lost) > 0 {
		// a settled trade has no expiry any more
		bad("lost", "lost or replaced %v", lost)
	}
	same := sim.SameTrade(b, a)
	expired := b.ExpiryTime > 0 && uint64(time.Now().Unix()) >= b.ExpiryTime
	switch op {
	case "propose":
		switch {
		case bs == "empty" && refused:
			if as != "proposal-failed" || ok || a.SwapFail.IsZero() {
				bad("refused", "refused request: ok=%v", ok)
			}
		case bs == "empty":
			if as != "proposal" || !ok || err != nil || a.SwapRequest.IsZero() {
				bad("step", "ok=%v err=%v", ok, err)
			}
		default:
			if !same {
				bad("repeat", "a repeated proposal changed the trade")
			}
		}
	case "accept":
		switch {
		case bs == "proposal" && refused:
			if as != "proposal-failed" || ok || a.SwapFail.IsZero() {
				bad("refused", "ok=%v", ok)
			}
		case bs == "proposal":
			if as != "accepted" || !ok || err != nil || a.SwapAccept.IsZero() || a.TxID == "" || a.ExpiryTime == 0 {
				bad("step", "ok=%v err=%v txid=%q", ok, err, a.TxID)
			}
		default:
			if !same {
				bad("repeat", "changed the trade")
			}
			if b.Status.Code < domain.Accepted && (ok || err == nil) {
				bad("skipped", "accepting in this state is not refused: ok=%v err=%v", ok, err)
			}
		}
	case "complete":
		switch {
		case bs == "accepted" && expired:
			if ok || err == nil || (as != "accepted" && as != "accepted-failed") {
				bad("expired", "completing after the expiry: ok=%v err=%v", ok, err)
			}
		case bs == "accepted" && refused:
			if ok || as != "accepted-failed" || a.SwapFail.IsZero() {
				bad("refused", "ok=%v", ok)
			}
		case bs == "accepted":
			if !ok || err != nil || as != "completed" || a.SwapComplete.IsZero() || a.TxHex == "" {
				bad("step", "ok=%v err=%v", ok, err)
			}
		default:
			if !same {
				bad("repeat", "changed the trade")
			}
			if (b.Status.Code < domain.Accepted || b.Status.Code == domain.Expired || bs == "accepted-failed") && ok {
				bad("skipped", "completing in this state is not refused")
			}
		}
	case "settle":
		switch {
		case !b.SwapAccept.IsZero() && !b.IsSettled():
			if !ok || err != nil || as != "settled" || a.SettlementTime == 0 || a.ExpiryTime != 0 {
				bad("step", "ok=%v err=%v time=%d", ok, err, a.SettlementTime)
			}
		case b.IsSettled():
			if !same || !ok || err != nil {
				bad("repeat", "changed the trade or refused: ok=%v err=%v", ok, err)
			}
		default:
			if !same || ok || err == nil {
				bad("skipped", "settling an unaccepted trade: ok=%v err=%v", ok, err)
			}
		}
	case "fail":
		switch {
		case b.Status.Failed || b.IsSettled():
			if !same {
				bad("repeat", "changed the trade")
			}
		default:
			if a.Status.Code != b.Status.Code || !a.Status.Failed || a.SwapFail.IsZero() {
				bad("step", "not marked failed")
			}
		}
	case "expire":
		switch {
		case b.Status.Code == domain.Expired:
			if !same || !ok {
				bad("repeat", "changed the trade: ok=%v", ok)
			}
		case b.ExpiryTime > 0 && expired:
			if !ok || err != nil || as != "expired" {
				bad("step", "ok=%v err=%v", ok, err)
			}
		default:
			if !same || ok || err == nil {
				bad("early", "expired before its time: ok=%v err=%v", ok, err)
			}
		}
	}
}

// ---- every stored update under concurrent service calls ----

var allowed = map[string]bool{}

func init() {
	for _, e := range []string{
		"empty>proposal", "empty>proposal-failed", "empty>accepted",
		"proposal>accepted", "proposal>proposal-failed",
		"accepted>completed", "accepted>accepted-failed", "accepted>settled", "accepted>expired",
		"accepted-failed>settled", "accepted-failed>expired",
		"completed>settled", "completed>completed-failed", "completed-failed>settled",
		"expired>settled",
	} {
		allowed[e] = true
	}
}

type edge struct{ from, to string }

type watcher struct {
	r     *sim.Rec
	mu    sync.Mutex
	edges map[string]map[edge]int
	path  map[string][]string
}

func (w *watcher) on(b, a domain.Trade, inTx bool) {
	if b.Status.Code == domain.Empty && inTx {
		// the first record of a trade, whatever happened to the transaction
		b = domain.Trade{ID: a.ID, Status: domain.EmptyStatus}
	}
	e := edge{sim.St(b.Status), sim.St(a.Status)}
	w.mu.Lock()
	id := a.ID.String()
	if w.edges[id] == nil {
		w.edges[id] = map[edge]int{}
	}
	w.edges[id][e]++
	n := w.edges[id][e]
	w.path[id] = append(w.path[id], e.from+">"+e.to)
	p := strings.Join(w.path[id], " ")
	w.mu.Unlock()
	w.r.Count("updates", 1)
	w.r.Count("update:"+e.from+">"+e.to, 1)
	if e.from != e.to {
		if !allowed[e.from+">"+e.to] {
			w.r.Violate("stored:"+e.from+">"+e.to, "trade %s moved from %s to %s: %s", id, e.from, e.to, p)
		}
		if n > 1 && e.from != "empty" {
			w.r.Violate("stored-twice:"+e.from+">"+e.to, "trade %s left %s twice: %s", id, e.from, p)
		}
	}
	if lost := sim.Kept(b, a); len(lost) > 0 && b.Status.Code != domain.Empty {
		w.r.Violate("stored-lost:"+strings.Join(lost, ","), "trade %s lost or replaced %v in %s>%s", id, lost, e.from, e.to)
	}
}

type rt struct {
	acc              domain.SwapAccept
	txid             string
	completed, bad   int32
	failed, confirmd int32
}

func service(r *sim.Rec, round int, backend string, n int, expiring bool) {
	g := r.Rng(fmt.Sprint("service", round))
	fc := sim.NewFastChain()
	w := &watcher{r: r, edges: map[string]map[edge]int{}, path: map[string][]string{}}
	exp := 100 * time.Second
	if expiring {
		exp = -57 * time.Second // the expiry check runs 3 seconds after accepting
	}
	o := sim.DaemonOpts{Chain: fc.Chain, Explorer: fc, Expiry: exp, FewAddrs: 2, Slippage: decimal.NewFromFloat(0.9),
		WrapRepo: func(rm ports.RepoManager) ports.RepoManager { return sim.WatchRepo{RepoManager: rm, On: w.on} }}
	if backend == "inmemory" {
		o.Repo = inmemory.NewRepoManager()
	}
	dm, err := sim.NewDaemon(o)
	if err == nil {
		err = dm.Up()
	}
	if err != nil {
		r.Inconclusive("daemon: %s", err)
		return
	}
	defer dm.Close()
	quote := sim.NewAsset()
	var bases, quotes, fees []uint64
	for i := 0; i < n; i++ {
		bases, quotes, fees = append(bases, 100000), append(quotes, 10000000), append(fees, 5000)
	}
	sim.UseFastSwaps(sim.FastParser{Slow: func(k string) {
		if k == "complete" {
			sim.Sleep(300)
		}
	}}, sim.FastFiller{})
	if err := dm.FundFee(fees...); err != nil {
		r.Inconclusive("fund: %s", err)
		return
	}
	mk, _, err := dm.NewMarket(quote, bases, quotes)
	if err != nil {
		r.Inconclusive("market: %s", err)
		return
	}
	if err := dm.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: mk, Strategy: domain.StrategyTypePluggable}); err != nil {
		r.Inconclusive("strategy: %s", err)
		return
	}
	if err := dm.Operator.UpdateMarketPrice(ctx, application.MarketWithPrice{Market: mk, Price: application.Price{
		BasePrice: decimal.NewFromFloat(0.01), QuotePrice: decimal.NewFromInt(100)}}); err != nil {
		r.Inconclusive("price: %s", err)
		return
	}
	if err := dm.Operator.OpenMarket(ctx, mk.BaseAsset, mk.QuoteAsset); err != nil {
		r.Inconclusive("open: %s", err)
		return
	}
	fc.SetFault(func(op, arg string) error {
		if op == "BroadcastTransaction" && len(arg)%3 == 0 && time.Now().UnixNano()%5 == 0 {
			return fmt.Errorf("node unavailable")
		}
		return nil
	})

	var trades []*rt
	for i := 0; i < n; i++ {
		rq := sim.FastRequest(g, fmt.Sprintf("rq-%d-%d", round, i), mk.QuoteAsset, 50000*100+uint64(i), mk.BaseAsset, 50000)
		acc, fail, _, err := dm.Trade.TradePropose(ctx, mk, application.TradeBuy, rq)
		if err != nil || acc == nil {
			r.Count("not-accepted", 1)
			if fail != nil {
				r.Count("rejected", 1)
			}
			continue
		}
		t := &rt{acc: acc}
		if st := dm.TradeByAccept(acc.GetId()); st != nil {
			t.txid = st.TxID
			if expiring && g.Intn(3) > 0 {
				dm.ShiftExpiry(st, time.Now().Unix()+int64(2+g.Intn(3)))
			}
		} else {
			r.Violate("accept-not-stored", "the accepted trade is not in the storage")
			continue
		}
		trades = append(trades, t)
	}
	r.Count("accepted", int64(len(trades)))
	var wg sync.WaitGroup
	for i, t := range trades {
		t := t
		cg := g.Fork()
		actors := 3 + cg.Intn(4)
		for k := 0; k < actors; k++ {
			what := cg.Intn(10)
			delay := cg.Intn(3000)
			if expiring {
				delay = 2_000_000 + cg.Intn(2_000_000)
			}
			again := cg.Intn(3)
			kg := cg.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				sim.Sleep(delay)
				for x := 0; x <= again; x++ {
					switch {
					case what < 5:
						c := sim.FastComplete(fmt.Sprint("c", i, k, x), t.acc)
						id, f, err := dm.Trade.TradeComplete(ctx, &c, nil)
						r.Count("complete-calls", 1)
						if err == nil && f == nil {
							atomic.AddInt32(&t.completed, 1)
							if id != t.txid {
								r.Violate("wrong-txid", "completed with transaction %s, accepted %s", id, t.txid)
							}
						}
					case what < 6:
						var c domain.SwapComplete = &pbswap.SwapComplete{Id: "b", AcceptId: t.acc.GetId(), Transaction: "signed:nothing"}
						_, f, err := dm.Trade.TradeComplete(ctx, &c, nil)
						if err == nil && f == nil {
							// fine if the trade was completed before
							if s := dm.TradeByAccept(t.acc.GetId()); s == nil || s.Status.Code < domain.Completed {
								r.Violate("bad-completion", "a foreign completion is acknowledged in status %v", s.Status)
							}
						}
					case what < 8:
						var f domain.SwapFail = &pbswap.SwapFail{Id: "f", MessageId: t.acc.GetId(), FailureCode: 3, FailureMessage: "no"}
						_, _, err := dm.Trade.TradeComplete(ctx, nil, &f)
						r.Count("fail-calls", 1)
						if err == nil {
							atomic.AddInt32(&t.failed, 1)
						}
					case what < 9:
						if _, err := fc.Chain.GetTransactionHex(t.txid); err == nil {
							fc.Chain.Confirm(t.txid)
							atomic.AddInt32(&t.confirmd, 1)
							r.Count("confirmed", 1)
						}
					default:
						dm.Trade.GetTradableMarkets(ctx)
					}
					sim.Sleep(kg.Intn(800))
				}
			}()
		}
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(200 * time.Second):
		r.Violate("stuck", "completions, failures and expiries do not end")
		return
	}
	// whatever reached the chain confirms in the end
	fc.SetFault(nil)
	for _, t := range trades {
		if _, err := fc.Chain.GetTransactionHex(t.txid); err == nil && g.Intn(4) > 0 {
			fc.Chain.Confirm(t.txid)
			atomic.AddInt32(&t.confirmd, 1)
		}
	}
	if expiring {
		time.Sleep(3500 * time.Millisecond)
	}
	sim.WaitFor(10*time.Second, func() bool {
		for _, t := range trades {
			if atomic.LoadInt32(&t.confirmd) > 0 && atomic.LoadInt32(&t.completed) > 0 {
				if s := dm.TradeByAccept(t.acc.GetId()); s == nil || !s.IsSettled() {
					return false
				}
			}
		}
		return true
	})
	casts := fc.Broadcasted()
	for _, t := range trades {
		s := dm.TradeByAccept(t.acc.GetId())
		if s == nil {
			r.Violate("trade-gone", "an accepted trade is gone")
			continue
		}
		st := sim.St(s.Status)
		r.Count("final:"+st, 1)
		w.mu.Lock()
		p := strings.Join(w.path[s.ID.String()], " ")
		w.mu.Unlock()
		if t.completed > 0 && st != "completed" && st != "settled" {
			r.Violate("completed-undone", "a completion was acknowledged, the trade ends %s: %s", st, p)
		}
		if t.completed > 0 && t.confirmd > 0 && st != "settled" {
			r.Violate("not-settled", "the transaction of a completed trade confirmed, the trade is %s: %s", st, p)
		}
		if t.completed > 0 && casts[t.txid] != 1 {
			r.Violate("broadcasts", "a completed trade was broadcast %d times", casts[t.txid])
		}
		if t.failed > 0 && (st == "completed" || st == "settled") {
			r.Violate("failed-undone", "a failure was acknowledged, the trade ends %s: %s", st, p)
		}
		if (st == "completed" || st == "settled") && (s.SwapComplete.IsZero() || s.TxHex == "") && t.completed > 0 {
			r.Violate("completion-lost", "the completion of a %s trade is not recorded: %s", st, p)
		}
		if st == "settled" && s.SettlementTime == 0 {
			r.Violate("settlement-time", "a settled trade has no settlement time")
		}
		r.Eval(p)
	}
}

func main() {
	r := sim.Start("random call sequences on domain trades, each call judged against the lifecycle; concurrent completions, failures, expiries and confirmations of the same trades through the services, each stored update judged; distinct: sequences of calls and states")
	sim.UseFastEncrypter()
	domain.MnemonicStoreManager = &sim.MemStore{}
	sequences(r, r.N(30000, 1000000))
	for i := 0; i < r.N(2, 12); i++ {
		service(r, i*3, "badger", 25, false)
		service(r, i*3+1, "badger", 25, true)
	}
	service(r, 1000, "inmemory", 20, false)
	r.NeedAtLeast("calls", 10000)
	r.NeedAtLeast("accepted", 50)
	r.NeedAtLeast("complete-calls", 100)
	r.NeedAtLeast("final:settled", 5)
	r.NeedAtLeast("final:expired", 1)
	r.Assume("service runs use explicit unsigned transactions behind the repository's seams; the order in which updates are reported may differ from the order in which they were stored")
	r.Finish()
}
