// Monitor of C21: concurrent requests are free of data races.
package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
)

var ctx = context.Background()

type env struct {
	r       *sim.Rec
	d       *sim.Daemon
	c       *sim.Chain
	mks     []application.Market
	busy    int32
	overlap int64
	mu      sync.Mutex
	pend    []*sim.Proposal
	unconf  []string
	running map[string]int
	seen    map[string]bool
	hooks   []string
	trades  int32
	ps      ports.SecurePubSub
}

// call makes one call under a deadline, and notes what it overlaps with.
func (e *env) call(name string, f func()) bool {
	e.mu.Lock()
	for o := range e.running {
		p := []string{name, o}
		if o < name {
			p = []string{o, name}
		}
		e.seen[strings.Join(p, " with ")] = true
	}
	e.running[name]++
	e.mu.Unlock()
	done := make(chan bool, 1)
	go func() { done <- e.r.GuardV("C21", name, f) }()
	ok := false
	select {
	case ok = <-done:
	case <-time.After(100 * time.Second):
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		e.r.Violate("C21/hang-"+name, "%s does not return in 100 s: %s", name, b)
		return false
	}
	e.mu.Lock()
	if e.running[name]--; e.running[name] == 0 {
		delete(e.running, name)
	}
	e.mu.Unlock()
	e.r.Eval("")
	e.r.Count("calls", 1)
	return ok
}

type op struct {
	name   string
	weight int
	f      func(g *sim.Rng)
}

func (e *env) market(g *sim.Rng) application.Market { return e.mks[g.Intn(len(e.mks))] }

func (e *env) ops() []op {
	d, o, w, t := e.d, e.d.Operator, e.d.Wallet, e.d.Trade
	dec := func(g *sim.Rng) decimal.Decimal { return decimal.NewFromFloat(0.1 + float64(g.Intn(1000))/100) }
	return []op{
		{"propose", 6, func(g *sim.Rng) {
			if atomic.AddInt32(&e.trades, 1) > 14 {
				return
			}
			p, err := d.Propose(e.market(g), g.Intn(2), 10000+uint64(g.Intn(50000)), "t"+g.Hex(6))
			if err != nil || p.Acc == nil {
				e.r.Count("proposals refused", 1)
				return
			}
			e.r.Count("proposals accepted", 1)
			e.mu.Lock()
			e.pend = append(e.pend, p)
			e.mu.Unlock()
		}},
		{"complete", 8, func(g *sim.Rng) {
			e.mu.Lock()
			if len(e.pend) == 0 {
				e.mu.Unlock()
				return
			}
			i := g.Intn(len(e.pend))
			p := e.pend[i]
			if !g.Chance(3) {
				e.pend = append(e.pend[:i], e.pend[i+1:]...)
			}
			e.mu.Unlock()
			if g.Chance(5) {
				var f domain.SwapFail = &pbswap.SwapFail{Id: g.Hex(4), MessageId: p.Acc.GetId(), FailureCode: 1, FailureMessage: "no"}
				t.TradeComplete(ctx, nil, &f)
				return
			}
			m, err := p.Trader.Complete("c"+g.Hex(6), p.Acc)
			if err != nil {
				panic("harness: " + err.Error())
			}
			var c domain.SwapComplete = m
			txid, fail, err := t.TradeComplete(ctx, &c, nil)
			if err == nil && fail == nil {
				e.r.Count("trades completed", 1)
				e.mu.Lock()
				e.unconf = append(e.unconf, txid)
				e.mu.Unlock()
			}
		}},
		{"confirm", 6, func(g *sim.Rng) {
			e.mu.Lock()
			l := e.unconf
			e.unconf = nil
			e.mu.Unlock()
			for _, x := range l {
				e.c.Confirm(x)
			}
		}},
		{"markets", 4, func(g *sim.Rng) { t.GetTradableMarkets(ctx) }},
		{"price", 8, func(g *sim.Rng) {
			m := e.market(g)
			a := []string{m.BaseAsset, m.QuoteAsset}[g.Intn(2)]
			t.GetMarketPrice(ctx, m, g.Intn(2), 1+g.Log(24), a)
		}},
		{"balance", 6, func(g *sim.Rng) { t.GetMarketBalance(ctx, e.market(g)) }},
		{"deposit-market", 1, func(g *sim.Rng) {
			if g.Chance(4) {
				o.DepositMarket(ctx, "", "", 1)
				return
			}
			m := e.market(g)
			l, err := o.DepositMarket(ctx, m.BaseAsset, m.QuoteAsset, 1)
			if err != nil || len(l) == 0 {
				return
			}
			ops, err := e.c.Fund(true, sim.Pay{Addr: l[0].Address, Asset: m.BaseAsset, Value: 5e6}, sim.Pay{Addr: l[0].Address, Asset: m.QuoteAsset, Value: 5e6})
			if err == nil {
				o.ClaimMarketDeposit(ctx, m, sim.ToTxOutpoints(ops))
			}
		}},
		{"deposit-fee", 2, func(g *sim.Rng) {
			l, err := o.DepositFeeAccount(ctx, 1)
			if err != nil || len(l) == 0 {
				return
			}
			ops, err := e.c.Fund(true, sim.Pay{Addr: l[0].Address, Asset: sim.LBTC, Value: 20000})
			if err == nil {
				o.ClaimFeeDeposit(ctx, sim.ToTxOutpoints(ops))
			}
		}},
		{"open", 5, func(g *sim.Rng) { m := e.market(g); o.OpenMarket(ctx, m.BaseAsset, m.QuoteAsset) }},
		{"close", 2, func(g *sim.Rng) { m := e.market(g); o.CloseMarket(ctx, m.BaseAsset, m.QuoteAsset) }},
		{"percentage-fee", 3, func(g *sim.Rng) {
			o.UpdateMarketPercentageFee(ctx, application.MarketWithFee{Market: e.market(g), Fee: application.Fee{BasisPoint: int64(1 + g.Intn(200))}})
		}},
		{"fixed-fee", 3, func(g *sim.Rng) {
			o.UpdateMarketFixedFee(ctx, application.MarketWithFee{Market: e.market(g), Fee: application.Fee{FixedBaseFee: int64(g.Intn(20)), FixedQuoteFee: int64(g.Intn(20))}})
		}},
		{"update-price", 4, func(g *sim.Rng) {
			o.UpdateMarketPrice(ctx, application.MarketWithPrice{Market: e.market(g), Price: application.Price{BasePrice: dec(g), QuotePrice: dec(g)}})
		}},
		{"strategy", 2, func(g *sim.Rng) {
			o.UpdateMarketStrategy(ctx, application.MarketStrategy{Market: e.market(g), Strategy: []domain.StrategyType{domain.StrategyTypePluggable, domain.StrategyTypeBalanced}[g.Intn(2)]})
		}},
		{"list-trades", 5, func(g *sim.Rng) { o.ListTrades(ctx) }},
		{"list-addresses", 3, func(g *sim.Rng) { o.ListMarketExternalAddresses(ctx, e.market(g)) }},
		{"withdraw", 2, func(g *sim.Rng) {
			tw, _ := trade.NewRandomWallet(sim.Net)
			o.WithdrawMarketFunds(ctx, application.WithdrawMarketReq{Market: e.market(g), MillisatPerByte: 100, Push: g.Bool(),
				BalanceToWithdraw: application.Balance{BaseAmount: 1000, QuoteAmount: 1000}, Address: tw.Address()})
		}},
		{"fee-balance", 5, func(g *sim.Rng) { o.FeeAccountBalance(ctx) }},
		{"list-markets", 5, func(g *sim.Rng) { o.ListMarket(ctx) }},
		{"fees", 4, func(g *sim.Rng) { o.GetCollectedMarketFee(ctx, e.market(g)) }},
		{"utxos", 4, func(g *sim.Rng) { o.ListUtxos(ctx) }},
		{"reload", 2, func(g *sim.Rng) { o.ReloadUtxos(ctx) }},
		{"drop", 1, func(g *sim.Rng) { o.DropMarket(ctx, 8+g.Intn(3)) }},
		{"webhooks", 4, func(g *sim.Rng) {
			switch g.Intn(3) {
			case 0:
				id, err := o.AddWebhook(ctx, application.Webhook{ActionType: g.Intn(6), Endpoint: "http://127.0.0.1:1/" + g.Hex(2), Secret: "s"})
				if err == nil {
					e.mu.Lock()
					e.hooks = append(e.hooks, id)
					e.mu.Unlock()
				}
			case 1:
				o.ListWebhooks(ctx, g.Intn(6))
			default:
				e.mu.Lock()
				id := "none"
				if n := len(e.hooks); n > 0 {
					id = e.hooks[n-1]
					e.hooks = e.hooks[:n-1]
				}
				e.mu.Unlock()
				o.RemoveWebhook(ctx, id)
			}
		}},
		{"publish", 4, func(g *sim.Rng) {
			// what the services do in the background when trades settle, funds
			// are withdrawn or an account runs low
			topics := []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW"}
			if e.ps.Publish(topics[g.Intn(3)], `{"a":1}`) == nil {
				e.r.Count("events published", 1)
			}
		}},
		{"gen-seed", 1, func(g *sim.Rng) { w.GenSeed(ctx) }},
		{"unlock", 3, func(g *sim.Rng) {
			if g.Chance(3) {
				w.UnlockWallet(ctx, "wrong")
				return
			}
			w.UnlockWallet(ctx, sim.Pass)
		}},
		{"change-password", 1, func(g *sim.Rng) { w.ChangePassword(ctx, sim.Pass, sim.Pass) }},
		{"wallet-address", 3, func(g *sim.Rng) { w.GenerateAddressAndBlindingKey(ctx) }},
		{"wallet-balance", 3, func(g *sim.Rng) { w.GetWalletBalance(ctx) }},
		{"send", 2, func(g *sim.Rng) {
			a, _, err := w.GenerateAddressAndBlindingKey(ctx)
			if err != nil {
				return
			}
			ops, err := e.c.Fund(true, sim.Pay{Addr: a, Asset: sim.LBTC, Value: 20000})
			if err != nil {
				return
			}
			_ = ops
			tw, _ := trade.NewRandomWallet(sim.Net)
			w.SendToMany(ctx, application.SendToManyRequest{Outputs: []application.TxOut{{Asset: sim.LBTC, Value: 5000, Address: tw.Address()}}, MillisatPerByte: 100, Push: true})
		}},
		{"block", 3, func(g *sim.Rng) { time.Sleep(time.Duration(g.Intn(20)) * time.Millisecond) }},
	}
}

// mix runs calls from several goroutines at once.
func (e *env) mix(g *sim.Rng, workers, calls int, only map[string]bool) {
	ops := e.ops()
	pick := []op{}
	for _, o := range ops {
		if only != nil && !only[o.name] {
			continue
		}
		for i := 0; i < o.weight; i++ {
			pick = append(pick, o)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(g *sim.Rng) {
			defer wg.Done()
			for k := 0; k < calls; k++ {
				o := pick[g.Intn(len(pick))]
				if !e.call(o.name, func() { o.f(g) }) {
					return
				}
			}
		}(g.Fork())
	}
	wg.Wait()
}

func run(r *sim.Rec, g *sim.Rng, mem bool) {
	dir, err := ioutil.TempDir(r.Dir, "d")
	if err != nil {
		panic(err)
	}
	st, err := boltsecurestore.NewSecureStorage(dir, "pubsub.db")
	if err != nil {
		panic(err)
	}
	ps, err := webhookpubsub.NewWebhookPubSubService(st, esplora.NewHTTPClient(2*time.Second))
	if err != nil {
		panic(err)
	}
	var repo ports.RepoManager
	if mem {
		repo = inmemory.NewRepoManager()
	}
	c := sim.NewChain()
	opts := sim.DaemonOpts{Chain: c, Repo: repo, PubSub: ps, Slippage: decimal.NewFromFloat(0.5), FewAddrs: 3, Crawl: 30 * time.Millisecond}
	if !mem && g.Bool() {
		opts.Dir = filepath.Join(dir, "db")
		os.MkdirAll(opts.Dir, 0755)
	}
	if g.Bool() {
		opts.Expiry = -57 * time.Second // trades expire a few seconds after
	}
	d, err := sim.NewDaemon(opts)
	if err != nil {
		panic(err)
	}
	e := &env{ps: ps, r: r, d: d, c: c, running: map[string]int{}, seen: map[string]bool{}}
	e.mks = []application.Market{{BaseAsset: sim.LBTC, QuoteAsset: sim.NewAsset()}}
	// requests that come while the wallet is initialised and unlocked
	reads := map[string]bool{"price": true, "balance": true, "markets": true, "list-markets": true, "list-trades": true, "fees": true, "utxos": true, "fee-balance": true,
		"wallet-balance": true, "gen-seed": true, "list-addresses": true, "webhooks": true, "reload": true, "wallet-address": true, "deposit-fee": true}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); e.mix(g.Fork(), 3, 12, reads) }()
	e.call("init", func() {
		if err := d.Init(sim.Words, sim.Pass, false).Err(); err != nil {
			panic("harness: " + err.Error())
		}
	})
	e.call("unlock", func() {
		if err := d.Wallet.UnlockWallet(ctx, sim.Pass); err != nil {
			panic("harness: " + err.Error())
		}
	})
	wg.Wait()
	if r.Violated() {
		return
	}
	if err := d.FundFee(20000, 20000, 20000, 20000, 20000, 20000, 20000, 20000); err != nil {
		panic(err)
	}
	e.mks = nil
	for i := 0; i < 2; i++ {
		m, _, err := d.OpenedMarket(sim.NewAsset(), []uint64{2e7, 2e7, 2e7, 2e7}, []uint64{3e8, 3e8, 3e8, 3e8})
		if err != nil {
			panic(err)
		}
		e.mks = append(e.mks, m)
	}
	for i := 0; i < 6; i++ {
		id, err := d.Operator.AddWebhook(ctx, application.Webhook{ActionType: i, Endpoint: "http://127.0.0.1:1/" + g.Hex(2)})
		if err == nil {
			e.r.Count("webhooks", 1)
			if i%2 == 0 {
				e.hooks = append(e.hooks, id)
			}
		}
	}
	sim.Quiesce()
	e.mix(g.Fork(), 8, r.N(28, 100), nil)
	// requests while the daemon stops
	wg.Add(1)
	go func() { defer wg.Done(); e.mix(g.Fork(), 3, 10, nil) }()
	e.call("stop", func() { d.Listener.StopObservation() })
	wg.Wait()
	e.mu.Lock()
	for k := range e.seen {
		e.r.Eval(k)
	}
	r.Count("pairs of calls at once", int64(len(e.seen)))
	e.mu.Unlock()
	// the daemon's store is left open: closing it under work in the background
	// makes badger panic, and the process is about to exit
	sim.Quiesce()
	r.Count(fmt.Sprintf("daemons in memory %v", mem), 1)
}

func main() {
	r := sim.Start("no data race is reported, no call panics, every call returns in 100 s")
	sim.UseFastEncrypter()
	if sim.Shard() < 0 {
		r.RunShards(6)
		r.NeedAtLeast("calls", 800)
		r.NeedAtLeast("proposals accepted", 15)
		r.NeedAtLeast("trades completed", 8)
		r.NeedAtLeast("pairs of calls at once", 300)
		r.Finish()
		return
	}
	g := r.Rng("c21")
	for i, n := 0, r.N(1, 4); i < n && !r.Violated(); i++ {
		run(r, g, sim.Shard()%3 == 0)
	}
	r.Finish()
}
