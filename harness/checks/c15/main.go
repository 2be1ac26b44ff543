// Monitor of C15: chain events settle trades and confirm coins exactly.
package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

// script is a crawler whose events are scripted: it only knows what is observed.
type script struct {
	mu      sync.Mutex
	obs     map[string]bool
	adds    int
	removes int
	stopped bool
	ev      chan crawler.Event
	quit    chan struct{}
}

func newScript() *script {
	return &script{obs: map[string]bool{}, ev: make(chan crawler.Event), quit: make(chan struct{})}
}

func (s *script) Start() { <-s.quit }
func (s *script) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.stopped {
		s.stopped = true
		close(s.quit)
		go func() { s.ev <- crawler.CloseEvent{} }()
	}
}
func (s *script) AddObservable(o crawler.Observable) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.stopped {
		s.obs[o.Key()] = true
		s.adds++
	}
}
func (s *script) RemoveObservable(o crawler.Observable) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.obs, o.Key())
	s.removes++
}
func (s *script) IsObservingAddresses([]string) bool  { return false }
func (s *script) GetEventChannel() chan crawler.Event { return s.ev }
func (s *script) has(k string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.obs[k]
}
func (s *script) keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := []string{}
	for k := range s.obs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// faulty makes the storage of coins fail now and then.
type faulty struct {
	ports.RepoManager
	f *faults
}

type faults struct {
	mu   sync.Mutex
	next map[string]int
	hits int
}

func (f *faults) arm(op string) { f.mu.Lock(); f.next[op]++; f.mu.Unlock() }
func (f *faults) clear()        { f.mu.Lock(); f.next = map[string]int{}; f.mu.Unlock() }
func (f *faults) fails(op string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.next[op] > 0 {
		f.next[op]--
		f.hits++
		return errors.New("storage fault of the harness")
	}
	return nil
}

type faultyUnspents struct {
	domain.UnspentRepository
	f *faults
}

func (w faulty) UnspentRepository() domain.UnspentRepository {
	return faultyUnspents{w.RepoManager.UnspentRepository(), w.f}
}
func (w faultyUnspents) ConfirmUnspents(c context.Context, k []domain.UnspentKey) (int, error) {
	if err := w.f.fails("confirm"); err != nil {
		return 0, err
	}
	return w.UnspentRepository.ConfirmUnspents(c, k)
}
func (w faultyUnspents) AddUnspents(c context.Context, u []domain.Unspent) error {
	if err := w.f.fails("add"); err != nil {
		return err
	}
	return w.UnspentRepository.AddUnspents(c, u)
}

// item is a transaction the daemon has to follow.
type item struct {
	kind   string // trade, send, withdraw, deposit
	txid   string
	p      *sim.Proposal
	acc    string
	state  string // of a trade: accepted, completed, self (broadcast by the trader), expired
	cast   bool   // on the chain
	conf   bool   // confirmed on the chain
	told   int    // confirmations reported
	first  uint64
	old    bool // was over before the daemon was restarted
	lapsed bool // was to expire while the daemon was down
}

type env struct {
	r      *sim.Rec
	g      *sim.Rng
	ch     *sim.Chain
	d      *sim.Daemon
	s      *script // nil with the real crawler
	f      *faults
	pub    *sim.RecPubSub
	dir    string
	mks    []application.Market
	accs   []int
	items  []*item
	bag    []crawler.Event
	opened map[sim.Outpoint]sim.Opened
	log    []string
	name   string
	noised bool
	seq    int
}

func (e *env) bad(sig, f string, a ...interface{}) {
	h := e.log
	if len(h) > 60 {
		h = h[len(h)-60:]
	}
	e.r.Violate("C15/"+sig, "%s: %s; history: %s", e.name, fmt.Sprintf(f, a...), strings.Join(h, " ; "))
}

func (e *env) say(f string, a ...interface{}) { e.log = append(e.log, fmt.Sprintf(f, a...)) }

func (e *env) opts() sim.DaemonOpts {
	o := sim.DaemonOpts{Chain: e.ch, Dir: e.dir, PubSub: e.pub, FewAddrs: 2, Slippage: decimal.NewFromFloat(0.5),
		WrapRepo: func(r ports.RepoManager) ports.RepoManager { return faulty{r, e.f} }}
	if e.s != nil {
		o.Crawler = e.s
	}
	return o
}

func (e *env) setup(real bool) bool {
	e.f = &faults{next: map[string]int{}}
	e.pub = &sim.RecPubSub{}
	if !real {
		e.s = newScript()
	}
	e.dir = filepath.Join(e.r.Dir, "db")
	os.MkdirAll(e.dir, 0755)
	d, err := sim.NewDaemon(e.opts())
	if err == nil {
		err = d.Up()
	}
	if err != nil {
		e.r.Inconclusive("daemon: %s", err)
		return false
	}
	e.d = d
	if err := d.FundFee(5000, 5000, 5000, 5000, 5000, 5000, 5000, 5000); err != nil {
		e.r.Inconclusive("fee account: %s", err)
		return false
	}
	for i := 0; i < 2; i++ {
		mk, acc, err := d.OpenedMarket(sim.NewAsset(), []uint64{200000, 150000, 120000, 90000}, []uint64{20000000, 15000000, 12000000})
		if err != nil {
			e.r.Inconclusive("market: %s", err)
			return false
		}
		e.mks, e.accs = append(e.mks, mk), append(e.accs, acc)
	}
	a, _, err := d.Wallet.GenerateAddressAndBlindingKey(ctx)
	if err != nil {
		e.r.Inconclusive("wallet address: %s", err)
		return false
	}
	e.ch.MustFund(true, sim.Pay{Addr: a, Asset: sim.LBTC, Value: 60000}, sim.Pay{Addr: a, Asset: sim.LBTC, Value: 70000})
	return true
}

// watched waits until the daemon observes a transaction.
func (e *env) watched(txid, what string) {
	if e.s == nil {
		return
	}
	if !sim.WaitFor(10*time.Second, func() bool { return e.s.has(txid) }) {
		e.bad("not-watched", "%s: its transaction %s is not observed", what, txid[:8])
	}
}

func (e *env) propose() {
	mi := e.g.Intn(len(e.mks))
	tt := application.TradeBuy
	if e.g.Bool() {
		tt = application.TradeSell
	}
	e.seq++
	p, err := e.d.Propose(e.mks[mi], tt, uint64(e.g.Range(2000, 9000)), fmt.Sprintf("req%d", e.seq))
	if err != nil || p.Acc == nil {
		e.r.Count("proposals refused", 1)
		e.say("propose refused (%v)", err)
		return
	}
	t := e.d.TradeByAccept(p.Acc.GetId())
	if t == nil {
		e.bad("trade-lost", "an accepted trade is not stored")
		return
	}
	it := &item{kind: "trade", txid: t.TxID, p: p, acc: p.Acc.GetId(), state: "accepted"}
	e.items = append(e.items, it)
	e.say("trade %s accepted", it.txid[:6])
	e.r.Count("trades", 1)
	e.watched(it.txid, "accepted trade")
}

func (e *env) some(f func(*item) bool) *item {
	l := []*item{}
	for _, it := range e.items {
		if f(it) {
			l = append(l, it)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[e.g.Intn(len(l))]
}

// complete completes a trade, maybe with its confirmation arriving meanwhile.
func (e *env) complete(race bool) {
	it := e.some(func(i *item) bool { return i.kind == "trade" && i.state == "accepted" })
	if it == nil {
		return
	}
	c, err := it.p.Trader.Complete("c"+it.acc, it.p.Acc)
	if err != nil {
		e.r.Inconclusive("trader: %s", err)
		return
	}
	var wg sync.WaitGroup
	if race && e.s != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if sim.WaitFor(10*time.Second, func() bool { return e.ch.Tx(it.txid) != nil }) {
				e.ch.Confirm(it.txid)
				e.push(e.event(it.txid, true))
			}
		}()
		it.conf = true
		e.r.Count("confirmed while completing", 1)
	}
	var id string
	var fail domain.SwapFail
	e.r.GuardV("C15/panic", "complete", func() {
		sc := domain.SwapComplete(c)
		id, fail, err = e.d.Trade.TradeComplete(ctx, &sc, nil)
	})
	wg.Wait()
	e.say("complete %s race %v = %v", it.txid[:6], race, err)
	if err != nil || fail != nil || id != it.txid {
		e.bad("complete", "completing an accepted trade gave %q, %v, %v", id, fail, err)
		return
	}
	it.state, it.cast = "completed", true
}

// self makes the trader broadcast the accepted transaction on its own.
func (e *env) self(expired bool) {
	it := e.some(func(i *item) bool { return i.kind == "trade" && i.state == "accepted" })
	if it == nil {
		return
	}
	c, err := it.p.Trader.Complete("c"+it.acc, it.p.Acc)
	var hx string
	if err == nil {
		hx, _, err = sim.Finalize(c.GetTransaction())
	}
	if err == nil {
		_, err = e.ch.BroadcastTransaction(hx)
	}
	if err != nil {
		e.r.Inconclusive("self broadcast: %s", err)
		return
	}
	it.state, it.cast = "self", true
	if expired {
		t := e.d.TradeByAccept(it.acc)
		if err := e.d.ShiftExpiry(t, time.Now().Unix()-5); err != nil {
			e.r.Inconclusive("expiry: %s", err)
			return
		}
		id := t.ID
		if err := e.d.Repo.TradeRepository().UpdateTrade(ctx, &id, func(x *domain.Trade) (*domain.Trade, error) {
			_, err := x.Expire()
			return x, err
		}); err != nil {
			e.r.Inconclusive("expiry: %s", err)
			return
		}
		e.r.Count("expired before confirming", 1)
	}
	e.say("self broadcast %s expired %v", it.txid[:6], expired)
	e.r.Count("broadcast by the trader", 1)
}

func (e *env) send() {
	mi := e.g.Intn(len(e.mks))
	dest, err := sim.NewTrader(e.ch)
	if err != nil {
		e.r.Inconclusive("payee: %s", err)
		return
	}
	n := len(e.ch.Broadcasts())
	kind := "send"
	if e.g.Bool() {
		kind = "withdraw"
		_, err = e.d.Operator.WithdrawMarketFunds(ctx, application.WithdrawMarketReq{Market: e.mks[mi],
			BalanceToWithdraw: application.Balance{BaseAmount: e.g.Range(300, 2000), QuoteAmount: e.g.Range(300, 2000)},
			MillisatPerByte:   100, Address: dest.W.Address(), Push: true})
	} else {
		_, err = e.d.Wallet.SendToMany(ctx, application.SendToManyRequest{MillisatPerByte: 100, Push: true,
			Outputs: []application.TxOut{{Asset: sim.LBTC, Value: int64(e.g.Range(300, 2000)), Address: dest.W.Address()}}})
	}
	e.say("%s = %v", kind, err)
	if err != nil {
		e.r.Count("sends refused", 1)
		return
	}
	b := e.ch.Broadcasts()
	if len(b) != n+1 || b[n].Err != "" {
		e.bad("not-sent", "a pushed %s made %d broadcasts", kind, len(b)-n)
		return
	}
	it := &item{kind: kind, txid: b[n].Txid, cast: true}
	e.items = append(e.items, it)
	e.r.Count("sends", 1)
	e.watched(it.txid, kind)
}

// deposit funds an account and reloads.
func (e *env) deposit(confirmed bool) {
	infos := e.infos()
	list := []domain.AddressInfo{}
	for _, i := range infos {
		list = append(list, i)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Script < list[j].Script })
	pays := []sim.Pay{}
	for n := 1 + e.g.Intn(3); n > 0; n-- {
		a := sim.LBTC
		if e.g.Bool() {
			a = e.mks[e.g.Intn(len(e.mks))].QuoteAsset
		}
		pays = append(pays, sim.Pay{Addr: list[e.g.Intn(len(list))].Address, Asset: a, Value: 1 + e.g.Log(40)})
	}
	ops := e.ch.MustFund(confirmed, pays...)
	it := &item{kind: "deposit", txid: ops[0].Hash, cast: true, conf: confirmed}
	e.reload()
	e.items = append(e.items, it)
	e.say("deposit %s of %d confirmed %v", it.txid[:6], len(pays), confirmed)
	e.r.Count("deposits", 1)
	if !confirmed {
		e.watched(it.txid, "unconfirmed deposit")
	}
}

func (e *env) reload() {
	n := 1
	if e.g.Chance(3) {
		n = 3
	}
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 30; k++ { // the explorer may fail
				if errs[i] = e.d.Operator.ReloadUtxos(ctx); errs[i] == nil {
					return
				}
			}
		}(i)
	}
	if ok, st := sim.Within(60*time.Second, wg.Wait); !ok {
		e.bad("hang", "reload does not return: %.500s", st)
	}
	e.r.Count("reloads", int64(n))
	for _, err := range errs {
		if err != nil {
			e.bad("reload", "reloading the utxo set fails: %s", err)
		}
	}
}

// event is what an explorer would report of a transaction now.
func (e *env) event(txid string, hx bool) crawler.Event {
	conf, hash, tm := e.ch.Block(txid)
	ev := crawler.TransactionEvent{TxID: txid, EventType: crawler.TransactionUnConfirmed}
	if conf {
		ev.EventType, ev.BlockHash, ev.BlockTime = crawler.TransactionConfirmed, hash, float64(tm)
	}
	if hx {
		ev.TxHex, _ = e.ch.GetTransactionHex(txid)
	}
	return ev
}

// push hands an event to the listener and waits until it has handled it.
func (e *env) push(evs ...crawler.Event) {
	for _, ev := range append(evs, crawler.AddressEvent{EventType: crawler.FeeAccountDeposit}) {
		select {
		case e.s.ev <- ev:
		case <-time.After(30 * time.Second):
			e.bad("stuck", "the listener does not take events any more")
			return
		}
	}
	for _, ev := range evs {
		e.r.Count("events", 1)
		t, ok := ev.(crawler.TransactionEvent)
		if !ok || t.EventType != crawler.TransactionConfirmed {
			continue
		}
		e.r.Count("confirmations", 1)
		for _, it := range e.items {
			if it.txid == t.TxID {
				it.told++
				if it.told > 1 {
					e.r.Count("confirmations repeated", 1)
				}
			}
		}
	}
}

// poll polls one of the observed transactions.
func (e *env) poll(k string, calm bool) {
	hx := calm || !e.g.Chance(4)
	ev := e.event(k, hx)
	evs := []crawler.Event{ev}
	if !calm && e.g.Chance(3) {
		evs = append(evs, ev)
	}
	if !calm && e.g.Chance(3) {
		e.bag = append(e.bag, ev)
	}
	if !calm && e.g.Chance(6) {
		e.f.arm([]string{"confirm", "add"}[e.g.Intn(2)])
		e.noised = true
	}
	compare := !calm && !e.noised && hx && e.tradeOf(k) != nil && ev.(crawler.TransactionEvent).EventType == crawler.TransactionConfirmed
	if compare {
		// completions mark coins in the background, and an earlier event of the
		// same trade may still be about to be announced
		sim.Quiesce()
		compare = len(e.announced(k)) == 0
	}
	e.push(evs...)
	e.f.clear()
	t := ev.(crawler.TransactionEvent)
	e.say("poll %s conf %v hex %v x%d", k[:6], t.EventType == crawler.TransactionConfirmed, hx, len(evs))
	// the announcement tells the balance with the trade's coins in it
	if tr := e.tradeOf(k); compare {
		if sim.WaitFor(5*time.Second, func() bool { return len(e.announced(k)) > 0 }) {
			e.balance(tr)
		}
	}
	e.noised = false
	e.states()
}

func (e *env) tradeOf(txid string) *item {
	for _, it := range e.items {
		if it.kind == "trade" && it.txid == txid {
			return it
		}
	}
	return nil
}

type settled struct {
	Txid string `json:"txid"`
	Swap struct {
		AmountP uint64 `json:"amount_p"`
		AssetP  string `json:"asset_p"`
		AmountR uint64 `json:"amount_r"`
		AssetR  string `json:"asset_r"`
	} `json:"swap"`
	Market struct {
		Base  string `json:"base_asset"`
		Quote string `json:"quote_asset"`
	} `json:"market"`
	Balance struct {
		Base  uint64 `json:"base_balance"`
		Quote uint64 `json:"quote_balance"`
	} `json:"balance"`
}

func (e *env) announced(txid string) []settled {
	r := []settled{}
	for _, m := range e.pub.Published("TRADE_SETTLED") {
		var s settled
		if err := json.Unmarshal([]byte(m), &s); err != nil {
			e.bad("announcement", "not JSON: %s", m)
		}
		if s.Txid == txid {
			r = append(r, s)
		}
	}
	return r
}

func (e *env) balance(it *item) {
	a := e.announced(it.txid)
	if len(a) != 1 {
		return
	}
	for i, m := range e.mks {
		if m.QuoteAsset != a[0].Market.Quote {
			continue
		}
		info, err := e.d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, e.accs[i])
		if err != nil {
			continue
		}
		want := map[string]uint64{}
		own := map[string]bool{}
		for _, in := range info {
			own[in.Address] = true
		}
		for _, u := range e.d.Unspents() {
			if own[u.Address] && !u.Spent && u.Confirmed {
				want[u.AssetHash] += u.Value
			}
		}
		e.r.Count("announced balances compared", 1)
		if a[0].Balance.Base != want[m.BaseAsset] || a[0].Balance.Quote != want[m.QuoteAsset] {
			e.bad("announced-balance", "trade %s settled, announced balance %d and %d, the market has %d and %d",
				it.txid[:6], a[0].Balance.Base, a[0].Balance.Quote, want[m.BaseAsset], want[m.QuoteAsset])
		}
	}
}

// states watches every trade after every step.
func (e *env) states() {
	for _, it := range e.items {
		if it.kind != "trade" {
			continue
		}
		t := e.d.TradeByAccept(it.acc)
		if t == nil {
			e.bad("trade-lost", "trade %s is not stored any more", it.txid[:6])
			continue
		}
		conf, _, tm := e.ch.Block(it.txid)
		e.r.Eval("states")
		if t.Status.Code != domain.Settled {
			continue
		}
		if !conf {
			e.bad("settled-unconfirmed", "trade %s is settled, its transaction is not confirmed", it.txid[:6])
		} else if t.SettlementTime != uint64(tm) {
			e.bad("settlement-time", "trade %s settled at %d, its block is of %d", it.txid[:6], t.SettlementTime, tm)
		}
	}
}

func (e *env) confirm() {
	it := e.some(func(i *item) bool { return i.cast && !i.conf })
	if it == nil {
		return
	}
	e.ch.Confirm(it.txid)
	it.conf = true
	e.say("block with %s %s", it.kind, it.txid[:6])
}

func (e *env) infos() map[string]domain.AddressInfo {
	v, err := e.d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		panic(err)
	}
	m := map[string]domain.AddressInfo{}
	for _, i := range v.AllDerivedAddressesInfo() {
		m[i.Script] = i
	}
	return m
}

func (e *env) noise() {
	if e.s == nil {
		return
	}
	switch e.g.Intn(3) {
	case 0:
		e.push(crawler.TransactionEvent{TxID: e.g.Hex(32), EventType: crawler.TransactionConfirmed, BlockTime: 1, TxHex: e.g.Hex(40)})
	case 1:
		e.push(crawler.AddressEvent{EventType: crawler.MarketAccountDeposit, AccountIndex: 5, Address: "x"})
	default:
		if len(e.bag) > 0 {
			i := e.g.Intn(len(e.bag))
			ev := e.bag[i]
			e.bag = append(e.bag[:i], e.bag[i+1:]...)
			e.say("late event of %s", ev.(crawler.TransactionEvent).TxID[:6])
			e.push(ev)
			e.r.Count("late events", 1)
		}
	}
	e.states()
}

// restart stops the daemon, lets blocks pass and starts it over.
func (e *env) restart() {
	// the crawler keeps up: coins of a transaction may be spent only then
	if e.s != nil {
		for i := 0; i < 2; i++ {
			for _, k := range e.s.keys() {
				if conf, _, _ := e.ch.Block(k); conf {
					e.poll(k, true)
				}
			}
		}
		for _, it := range e.items {
			it.old = it.conf
		}
	} else {
		if !sim.WaitFor(30*time.Second, func() bool { return len(e.open()) == 0 }) {
			e.bad("unsettled", "trades %v are confirmed and not settled after 30 s of polling", e.open())
		}
	}
	sim.Quiesce()
	for _, it := range e.items {
		// the daemon stopped following it when it expired
		if t := e.d.TradeByAccept(it.acc); it.kind == "trade" && t != nil && t.Status.Code == domain.Expired {
			it.lapsed = true
		}
	}
	var lapsed *item
	if it := e.some(func(i *item) bool { return i.kind == "trade" && i.state == "accepted" }); it != nil {
		t := e.d.TradeByAccept(it.acc)
		if t != nil && e.d.ShiftExpiry(t, time.Now().Unix()-600) == nil {
			it.state, it.lapsed, lapsed = "lapsed", true, it
		}
	}
	e.d.Close()
	e.bag = nil
	for n := e.g.Intn(3); n >= 0; n-- {
		e.confirm()
	}
	domain.MnemonicStoreManager.Unset()
	if e.s != nil {
		e.s = newScript()
	}
	d, err := sim.NewDaemon(e.opts())
	if err == nil {
		err = d.Wallet.UnlockWallet(ctx, sim.Pass)
	}
	if err != nil {
		e.bad("restart", "the daemon does not come back: %s", err)
		return
	}
	e.d = d
	e.say("restart")
	e.r.Count("restarts", 1)
	for _, it := range e.items {
		if it.kind != "trade" || it.lapsed {
			continue
		}
		t := d.TradeByAccept(it.acc)
		if t == nil {
			e.bad("trade-lost", "trade %s is lost by a restart", it.txid[:6])
			continue
		}
		if (t.IsAccepted() || t.IsCompleted()) && !t.IsRejected() {
			e.r.Count("pending at a restart", 1)
			e.watched(it.txid, "trade pending at a restart")
		}
	}
	if lapsed != nil {
		if !sim.WaitFor(10*time.Second, func() bool {
			t := d.TradeByAccept(lapsed.acc)
			if t == nil || t.Status.Code != domain.Expired {
				return false
			}
			for _, u := range d.Unspents() {
				if u.IsLocked() && *u.LockedBy == t.ID {
					return false
				}
			}
			return true
		}) {
			e.bad("lapsed-pending", "trade %s expired while the daemon was down is not released", lapsed.txid[:6])
		}
		e.r.Count("expired while down", 1)
	}
}

func (e *env) step(i int) {
	g := e.g
	switch k := g.Intn(20); {
	case k < 2:
		n := 0
		for _, it := range e.items {
			if it.kind == "trade" {
				n++
			}
		}
		if n < 6 {
			e.propose()
		}
	case k < 4:
		e.complete(g.Chance(2))
	case k == 4:
		e.self(g.Chance(3))
	case k == 5:
		e.send()
	case k == 6:
		e.deposit(g.Chance(3))
	case k == 7 && g.Bool():
		e.reload()
	case k < 11:
		e.confirm()
	case k < 13:
		e.noise()
	default:
		if e.s == nil {
			sim.Sleep(1000 * int(g.Range(5, 60)))
			e.states()
			break
		}
		if ks := e.s.keys(); len(ks) > 0 {
			e.poll(ks[g.Intn(len(ks))], false)
		}
	}
}

func run(r *sim.Rec, g *sim.Rng, sh, steps int) {
	real := sh%4 == 3
	e := &env{r: r, g: g, ch: sim.NewChain(), opened: map[sim.Outpoint]sim.Opened{}, name: fmt.Sprintf("shard %d real crawler %v", sh, real)}
	e.ch.Explicit = sh%2 == 0
	if !e.setup(real) {
		return
	}
	defer func() { e.d.Close() }()
	if real {
		n := map[string]int{}
		var mu sync.Mutex
		fg := g.Fork()
		e.ch.SetFault(func(op, arg string) error {
			mu.Lock()
			defer mu.Unlock()
			// a breaker of the crawler opens for a minute if 60% of requests fail, and
			// half of those for a transaction not yet broadcast do
			max := map[string]int{"GetTransactionStatus": 1, "GetTransactionHex": 4}[op]
			if n[op+arg] < max && fg.Chance(3) {
				n[op+arg]++
				r.Count("explorer faults", 1)
				return errors.New("explorer fault of the harness")
			}
			return nil
		})
	}
	e.propose()
	e.propose()
	e.propose()
	at := steps/3 + g.Intn(steps/2)
	for i := 0; i < steps && !r.Violated(); i++ {
		if i == at {
			e.restart()
			continue
		}
		e.step(i)
	}
	if !r.Violated() {
		e.end()
	}
}

// open lists the trades that are confirmed and not settled.
func (e *env) open() []string {
	l := []string{}
	for _, it := range e.items {
		if it.kind != "trade" || !it.conf || it.lapsed {
			continue
		}
		if t := e.d.TradeByAccept(it.acc); t == nil || t.Status.Code != domain.Settled {
			l = append(l, it.txid[:6])
		}
	}
	return l
}

func (e *env) end() {
	r := e.r
	// these reach the utxo set by their confirmation only
	for i := 0; i < 2; i++ {
		if e.some(func(i *item) bool { return i.kind == "trade" && i.state == "accepted" }) == nil {
			e.propose()
		}
		e.self(false)
	}
	e.complete(false)
	// what waits for a block goes on being watched
	if e.s == nil {
		wait := false
		for _, it := range e.items {
			wait = wait || it.cast && !it.conf && it.kind != "deposit"
		}
		if wait {
			n := e.ch.CallCount("GetTransactionStatus")
			if !sim.WaitFor(10*time.Second, func() bool { return e.ch.CallCount("GetTransactionStatus") > n+1 }) {
				e.bad("not-watched", "there are unconfirmed transactions and nothing is polled")
			}
		}
	} else {
		for _, it := range e.items {
			if it.cast && !it.conf && !it.lapsed {
				e.watched(it.txid, it.kind+" waiting for a block")
			}
		}
	}
	for _, it := range e.items {
		if it.cast && !it.conf {
			e.ch.Confirm(it.txid)
			it.conf = true
		}
	}
	e.say("blocks with everything")
	if e.s != nil {
		for round := 0; round < 3; round++ {
			for _, k := range e.s.keys() {
				e.poll(k, true)
			}
		}
		for len(e.bag) > 0 {
			e.push(e.bag[0])
			e.bag = e.bag[1:]
		}
		for _, it := range e.items {
			if it.conf && e.s.has(it.txid) {
				e.bad("watched-forever", "%s %s is confirmed and reported, and observed all the same", it.kind, it.txid[:6])
			}
		}
	} else {
		ok := sim.WaitFor(20*time.Second, func() bool { return len(e.open()) == 0 })
		if !ok {
			e.bad("unsettled", "trades %v are confirmed and not settled after 20 s of polling", e.open())
			return
		}
		// observation of confirmed transactions ends; accepted ones go on
		sim.WaitFor(10*time.Second, func() bool {
			for _, u := range e.d.Unspents() {
				if !u.Confirmed && !u.Spent {
					return false
				}
			}
			return true
		})
	}
	sim.Quiesce()
	e.audit()
	if e.s != nil {
		// a reload and every event again change nothing
		before := e.dump()
		for _, it := range e.items {
			if it.cast && !it.old {
				e.push(e.event(it.txid, true))
			}
		}
		e.reload()
		sim.Quiesce()
		if after := e.dump(); after != before {
			// the wallet's coins the explorer lists may be new to the utxo set
			e.audit()
		}
		e.audit()
	} else {
		e.reload()
		sim.Quiesce()
		e.audit()
	}
	for _, it := range e.items {
		if it.kind == "trade" {
			r.Count("trades ended "+it.state, 1)
		}
	}
}

func (e *env) dump() string {
	l := []string{}
	for _, u := range e.d.Unspents() {
		l = append(l, fmt.Sprint(u.TxID, u.VOut, u.Value, u.AssetHash, u.Spent, u.Confirmed))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// audit compares trades, coins and announcements with the chain.
func (e *env) audit() {
	r := e.r
	locks := map[string]bool{}
	for _, it := range e.items {
		if it.kind != "trade" {
			continue
		}
		t := e.d.TradeByAccept(it.acc)
		if t == nil {
			e.bad("trade-lost", "trade %s is gone", it.txid[:6])
			continue
		}
		if t.IsAccepted() {
			locks[t.ID.String()] = true
		}
		r.Eval("trades")
		if it.lapsed {
			continue
		}
		n := len(e.announced(it.txid))
		if !it.conf {
			if t.Status.Code == domain.Settled || n > 0 {
				e.bad("settled-unconfirmed", "trade %s: status %s, %d announcements, not confirmed", it.txid[:6], sim.St(t.Status), n)
			}
			continue
		}
		_, _, tm := e.ch.Block(it.txid)
		hx, _ := e.ch.GetTransactionHex(it.txid)
		for i := 0; hx == "" && i < 10; i++ {
			hx, _ = e.ch.GetTransactionHex(it.txid)
		}
		switch {
		case t.Status.Code != domain.Settled || t.Status.Failed:
			e.bad("unsettled", "trade %s (%s) is confirmed and %s", it.txid[:6], it.state, sim.St(t.Status))
		case t.SettlementTime != uint64(tm):
			e.bad("settlement-time", "trade %s: %d, the block is of %d", it.txid[:6], t.SettlementTime, tm)
		case t.TxHex != hx:
			e.bad("tx-hex", "trade %s (%s) is settled with the transaction %.20q.. of %d, that of the chain has %d digits", it.txid[:6], it.state, t.TxHex, len(t.TxHex), len(hx))
		}
		sim.WaitFor(5*time.Second, func() bool { return len(e.announced(it.txid)) > 0 })
		a := e.announced(it.txid)
		if len(a) != 1 {
			e.bad("announced", "trade %s (%s): %d announcements of its settlement", it.txid[:6], it.state, len(a))
			continue
		}
		q := it.p.Req
		if a[0].Swap.AmountP != q.AmountP || a[0].Swap.AmountR != q.AmountR || a[0].Swap.AssetP != q.AssetP || a[0].Swap.AssetR != q.AssetR || a[0].Market.Base != sim.LBTC {
			e.bad("announcement", "trade %s of %v announced as %+v", it.txid[:6], q, a[0])
		}
	}
	infos := e.infos()
	recs := map[sim.Outpoint][]domain.Unspent{}
	for _, u := range e.d.Unspents() {
		o := sim.Outpoint{Hash: u.TxID, Index: u.VOut}
		recs[o] = append(recs[o], u)
	}
	check := func(o sim.Outpoint, out *transaction.TxOutput, spent string, must bool, what string) {
		info, own := infos[hex.EncodeToString(out.Script)]
		if !own {
			return
		}
		us := recs[o]
		r.Eval("coins")
		if len(us) != 1 {
			if must && (len(us) > 1 || spent == "") {
				e.bad("coin-lost", "%s: its output %d to account %s is recorded %d times", what, o.Index, info.DerivationPath, len(us))
			}
			return
		}
		u := us[0]
		op, ok := e.opened[o]
		if !ok {
			if op, ok = sim.OpenOut(out, info.BlindingKey); ok {
				e.opened[o] = op
			}
		}
		if !ok || op.Asset != u.AssetHash || op.Value != u.Value {
			e.bad("coin-untrue", "%s: coin %s recorded as %d of %.6s, it is %d of %.6s", what, o, u.Value, u.AssetHash, op.Value, op.Asset)
		}
		if u.Address != info.Address {
			e.bad("coin-address", "%s: coin %s recorded under %s, it pays %s", what, o, u.Address, info.Address)
		}
		if u.Spent != (spent != "") {
			e.bad("coin-spent", "%s: coin %s has spent=%v, on the chain spent by %q", what, o, u.Spent, spent)
		}
		conf, _, _ := e.ch.Block(o.Hash)
		if spent == "" && u.Confirmed != conf {
			e.bad("coin-unconfirmed", "%s: coin %s has confirmed=%v, on the chain %v", what, o, u.Confirmed, conf)
		}
		if u.LockedBy != nil && !u.Spent && !locks[u.LockedBy.String()] {
			e.bad("coin-locked", "%s: coin %s is locked by a trade that is over", what, o)
		}
		if spent == "" && conf && u.LockedBy == nil {
			av, err := e.d.Repo.UnspentRepository().GetAvailableUnspentsForAddresses(ctx, []string{info.Address})
			found := false
			for _, a := range av {
				found = found || a.Key() == u.Key()
			}
			if err != nil || !found {
				e.bad("coin-unusable", "%s: confirmed coin %s is not available (%v)", what, o, err)
			}
			r.Count("coins usable", 1)
		}
	}
	for _, it := range e.items {
		tx := e.ch.Tx(it.txid)
		if tx == nil {
			continue
		}
		for i := range tx.Outputs {
			o := sim.Outpoint{Hash: it.txid, Index: uint32(i)}
			if out, by := e.ch.Out(o); out != nil {
				// a lapsed trade is nobody's to follow
				check(o, out, by, !it.lapsed, it.kind+" "+it.txid[:6]+" "+it.state)
			}
		}
	}
	for o := range recs {
		out, by := e.ch.Out(o)
		if out == nil {
			e.bad("coin-untrue", "recorded coin %s is not on the chain", o)
			continue
		}
		if _, own := infos[hex.EncodeToString(out.Script)]; !own {
			e.bad("coin-untrue", "recorded coin %s pays somebody else", o)
		}
		check(o, out, by, true, "recorded")
	}
}

func main() {
	r := sim.Start("a reported confirmation settles its trade and confirms its coins once")
	sim.UseFastEncrypter()
	defer r.Finish()
	if sh := sim.Shard(); sh >= 0 {
		r.GuardV("C15/panic", "events", func() { run(r, r.Rng("c15"), sh, r.N(70, 160)) })
		return
	}
	r.RunShards(r.N(8, 64))
	r.NeedAtLeast("trades", 16)
	r.NeedAtLeast("confirmations", 60)
	r.NeedAtLeast("confirmations repeated", 20)
	r.NeedAtLeast("late events", 5)
	r.NeedAtLeast("deposits", 6)
	r.NeedAtLeast("restarts", 6)
	r.NeedAtLeast("pending at a restart", 2)
	r.NeedAtLeast("coins usable", 60)
	r.Assume("The confirmation of a transaction whose coins were spent has been handled when the daemon is restarted.")
	r.Assume("Deposits to accounts are entered by claims and reloads; the daemon observes transactions, not addresses.")
}
