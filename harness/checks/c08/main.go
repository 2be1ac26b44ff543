// Monitor of C08: no wallet address is handed out twice.
package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

// accounts bounds the accounts of a history.
const accounts = 12

type given struct {
	key  *sim.KeyAt
	who  string
	ext  bool // given out, not only paid
	addr string
}

type env struct {
	r     *sim.Rec
	g     *sim.Rng
	d     *sim.Daemon
	ring  *sim.KeyRing
	chain *sim.Chain
	back  string
	dir   string
	repo  ports.RepoManager
	mks   []mkt
	name  string

	mu     sync.Mutex
	given  map[string]given // by script
	casts  int
	parsed map[string]bool // transactions accounted by their request
	theirs map[string]bool // scripts of other people
	log    []string
	trades int
	news   map[int]string // account of each market created
	assume map[string]int // quote assets
}

type mkt struct {
	m   application.Market
	acc int
}

func (e *env) bad(sig, f string, a ...interface{}) {
	e.mu.Lock()
	h := e.log
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	s := strings.Join(h, " ; ")
	e.mu.Unlock()
	e.r.Violate("C08/"+sig, "%s: %s; history: %s", e.name, fmt.Sprintf(f, a...), s)
}

func (e *env) note(f string, a ...interface{}) {
	e.mu.Lock()
	e.log = append(e.log, fmt.Sprintf(f, a...))
	e.mu.Unlock()
}

// take records one address; acc < 0 accepts any account.
func (e *env) take(script []byte, acc int, ext bool, who string) *sim.KeyAt {
	k := e.ring.Find(script, accounts, 20)
	id := hex.EncodeToString(script)
	if k == nil {
		e.bad("not-derived", "%s: script %s is nowhere in the seed", who, id)
		return nil
	}
	at := fmt.Sprintf("%d'/%d/%d", k.Account, k.Chain, k.Index)
	if acc >= 0 && k.Account != acc {
		e.bad("wrong-account", "%s: %s belongs to account %d, expected %d", who, at, k.Account, acc)
		return k
	}
	if ext && k.Chain != domain.ExternalChain {
		e.bad("wrong-chain", "%s: %s is a change address", who, at)
	}
	e.mu.Lock()
	p, was := e.given[id]
	if !was {
		e.given[id] = given{k, who, ext, k.Address}
	}
	e.mu.Unlock()
	e.r.Eval(at)
	if was {
		e.bad("reused", "%s is used by %s and by %s", at, p.who, who)
	}
	return k
}

// hand records addresses given out for deposits.
func (e *env) hand(l []application.AddressAndBlindingKey, want, acc int, who string) {
	if want <= 0 {
		want = 1
	}
	if len(l) != want {
		e.bad("count", "%s: %d addresses for %d asked", who, len(l), want)
	}
	for _, a := range l {
		s, err := sim.ScriptOf(a.Address)
		if err != nil {
			e.bad("malformed", "%s: address %s: %s", who, a.Address, err)
			continue
		}
		k := e.take(s, acc, true, who)
		if k == nil {
			continue
		}
		if k.Address != a.Address {
			e.bad("address", "%s: got %s, the seed has %s", who, a.Address, k.Address)
		}
		if a.BlindingKey != hex.EncodeToString(k.Blind) {
			e.bad("blinding-key", "%s: %s comes with blinding key %s, not its own", who, a.Address, a.BlindingKey)
		}
		e.r.Count("given out", 1)
		if acc < 0 {
			acc = k.Account // all of one account
		}
	}
}

// outs records the outputs of a transaction that are not somebody else's.
func (e *env) outs(tx *transaction.Transaction, ok map[int]bool, who string) {
	fees := 0
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			continue
		}
		e.mu.Lock()
		theirs := e.theirs[hex.EncodeToString(o.Script)]
		e.mu.Unlock()
		if theirs {
			continue
		}
		k := e.take(o.Script, -1, false, who)
		if k == nil {
			continue
		}
		if !ok[k.Account] {
			e.bad("wrong-account", "%s: output %d pays account %d", who, i, k.Account)
		}
		if k.Account == domain.FeeAccount {
			if fees++; fees > 1 {
				e.bad("wrong-account", "%s: %d outputs pay the fee account, whose change is one", who, fees)
			}
		}
		e.r.Count("paid", 1)
	}
}

func (e *env) them(addr string) {
	s, _ := sim.ScriptOf(addr)
	e.mu.Lock()
	e.theirs[hex.EncodeToString(s)] = true
	e.mu.Unlock()
}

func (e *env) payee() string {
	t, err := sim.NewTrader(e.chain)
	if err != nil {
		e.r.Inconclusive("payee: %s", err)
		return ""
	}
	e.them(t.W.Address())
	return t.W.Address()
}

func (e *env) start(first bool) {
	o := sim.DaemonOpts{Chain: e.chain, FewAddrs: 3}
	if e.back == "inmemory" {
		o.Repo = e.repo
		o.WrapRepo = nil
	} else {
		o.Dir = e.dir
	}
	var err error
	if e.d, err = sim.NewDaemon(o); err != nil {
		e.r.Inconclusive("daemon: %s", err)
		return
	}
	e.d.Opts.FewAddrs = 3
	if first {
		err = e.d.Up()
	} else {
		err = e.d.Wallet.UnlockWallet(ctx, sim.Pass)
	}
	if err != nil {
		e.r.Inconclusive("unlock: %s", err)
	}
}

func (e *env) restart() {
	e.d.Close()
	domain.MnemonicStoreManager.Unset()
	e.note("restart")
	e.start(false)
	e.r.Count("restarts", 1)
}

// ops a batch runs at once.
func (e *env) batch() {
	g := e.g
	n := 3 + g.Intn(7)
	type job struct {
		f    func(g *sim.Rng)
		what string
	}
	var jobs []job
	for i := 0; i < n; i++ {
		var j job
		switch x := g.Intn(12); {
		case x < 2:
			j = job{e.depositMarket, "deposit"}
		case x < 4:
			j = job{e.depositFee, "fee"}
		case x < 6:
			j = job{e.walletAddr, "wallet"}
		case x < 7:
			j = job{e.newMarket, "market"}
		case x < 9:
			j = job{e.propose, "propose"}
		case x < 10:
			j = job{e.withdraw, "withdraw"}
		default:
			j = job{e.send, "send"}
		}
		jobs = append(jobs, j)
	}
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		jg := g.Fork()
		go func(j job, d int) {
			defer wg.Done()
			sim.Sleep(d)
			e.r.GuardV("C08/panic", j.what, func() { j.f(jg) })
		}(j, jg.Intn(3000)*(i%2))
	}
	if ok, st := sim.Within(120*time.Second, wg.Wait); !ok {
		e.bad("hang", "requests do not return: %.600s", st)
	}
	sim.Quiesce()
	e.failedCasts()
	e.r.Count("batches", 1)
}

// failedCasts: what was shown to the explorer and refused by it might still
// end up in the chain.
func (e *env) failedCasts() {
	l := e.chain.Broadcasts()
	all := map[int]bool{}
	for i := 0; i < accounts; i++ {
		all[i] = true
	}
	for ; e.casts < len(l); e.casts++ {
		b := l[e.casts]
		if !b.Forced || e.parsed[b.Txid] {
			continue
		}
		e.parsed[b.Txid] = true
		tx, err := transaction.NewTxFromHex(b.Hex)
		if err != nil {
			continue
		}
		e.r.Count("failed broadcasts", 1)
		e.outs(tx, all, "failed broadcast "+b.Txid[:6])
	}
}

func (e *env) market(g *sim.Rng) (mkt, bool) {
	if len(e.mks) == 0 {
		return mkt{}, false
	}
	return e.mks[g.Intn(len(e.mks))], true
}

func (e *env) depositMarket(g *sim.Rng) {
	m, ok := e.market(g)
	if !ok {
		return
	}
	n := g.Intn(5)
	l, err := e.d.Operator.DepositMarket(ctx, m.m.BaseAsset, m.m.QuoteAsset, n)
	who := fmt.Sprintf("deposit of %d in market %d", n, m.acc)
	e.note("%s: %v", who, err)
	if err != nil {
		e.r.Count("refused", 1)
		return
	}
	e.hand(l, n, m.acc, who)
}

func (e *env) depositFee(g *sim.Rng) {
	n := g.Intn(4)
	l, err := e.d.Operator.DepositFeeAccount(ctx, n)
	who := fmt.Sprintf("fee deposit of %d", n)
	e.note("%s: %v", who, err)
	if err != nil {
		e.r.Count("refused", 1)
		return
	}
	e.hand(l, n, domain.FeeAccount, who)
}

func (e *env) walletAddr(g *sim.Rng) {
	for i := g.Intn(3); i >= 0; i-- {
		a, k, err := e.d.Wallet.GenerateAddressAndBlindingKey(ctx)
		if err != nil {
			e.note("wallet address: %v", err)
			e.r.Count("refused", 1)
			return
		}
		e.hand([]application.AddressAndBlindingKey{{Address: a, BlindingKey: k}}, 1, domain.WalletAccount, "wallet address")
	}
}

func (e *env) newMarket(g *sim.Rng) {
	e.mu.Lock()
	full := len(e.news) >= 4
	if !full {
		e.news[-1-len(e.news)] = "asked"
	}
	e.mu.Unlock()
	if full {
		return
	}
	n := 1 + g.Intn(3)
	l, err := e.d.Operator.DepositMarket(ctx, "", "", n)
	e.note("new market: %v", err)
	if err != nil {
		e.r.Count("refused", 1)
		return
	}
	e.hand(l, n, -1, "new market")
	if len(l) == 0 {
		return
	}
	s, err := sim.ScriptOf(l[0].Address)
	if err != nil {
		return
	}
	k := e.ring.Find(s, accounts, 20)
	if k == nil {
		return
	}
	if k.Account < domain.MarketAccountStart {
		e.bad("wrong-account", "a new market got account %d", k.Account)
	}
	e.mu.Lock()
	old := e.news[k.Account]
	e.news[k.Account] = "new market"
	for _, m := range e.mks {
		if m.acc == k.Account {
			old = m.m.QuoteAsset
		}
	}
	e.mu.Unlock()
	if old != "" {
		e.bad("account-shared", "a new market got account %d, of another market", k.Account)
	}
	e.r.Count("markets created", 1)
}

func (e *env) propose(g *sim.Rng) {
	m, ok := e.market(g)
	e.mu.Lock()
	e.trades++
	n := e.trades
	e.mu.Unlock()
	if !ok || n > 16 {
		return
	}
	ty := g.Intn(2)
	base := 1000 + g.Range(0, 20000)
	if g.Chance(6) {
		base = 90000000 // not payable
	}
	id := fmt.Sprintf("p%d", n)
	t, req, err := e.request(m.m, ty, base, id)
	if err != nil {
		e.r.Count("refused", 1)
		return
	}
	acc, _, _, err := e.d.Trade.TradePropose(ctx, m.m, ty, req)
	e.note("propose in %d: accepted %v %v", m.acc, acc != nil, err)
	if err != nil || acc == nil {
		e.r.Count("refused", 1)
		return
	}
	e.them(t.W.Address())
	p, err := pset.NewPsetFromBase64(acc.GetTransaction())
	if err != nil {
		e.bad("malformed", "accepted transaction: %s", err)
		return
	}
	e.outs(p.UnsignedTx, map[int]bool{m.acc: true, domain.FeeAccount: true}, "trade "+id)
	e.mu.Lock()
	e.parsed[p.UnsignedTx.TxHash().String()] = true // completing it broadcasts the same outputs
	e.mu.Unlock()
	e.r.Count("trades", 1)
	if g.Bool() {
		c, err := t.Complete(acc.GetId(), acc)
		if err != nil {
			e.r.Inconclusive("complete: %s", err)
			return
		}
		var sc domain.SwapComplete = c
		_, _, err = e.d.Trade.TradeComplete(ctx, &sc, nil)
		e.note("complete %s: %v", id, err)
		e.r.Count("completed", 1)
	}
}

func (e *env) request(m application.Market, ty int, base uint64, id string) (*sim.Trader, domain.SwapRequest, error) {
	aP, p, aR, r, err := sim.AmountsFor(e.d, m, ty, base)
	if err != nil {
		return nil, nil, err
	}
	if p == 0 || r == 0 {
		return nil, nil, errors.New("no price")
	}
	t, err := sim.NewTrader(e.chain, sim.Pay{Asset: aP, Value: p + 5000})
	if err != nil {
		return nil, nil, err
	}
	rq, err := t.Request(id, aP, p, aR, r)
	return t, rq, err
}

func (e *env) withdraw(g *sim.Rng) {
	m, ok := e.market(g)
	if !ok {
		return
	}
	rq := application.WithdrawMarketReq{Market: m.m, MillisatPerByte: 100, Push: !g.Chance(4), Address: e.payee()}
	if g.Bool() {
		rq.BalanceToWithdraw.BaseAmount = g.Range(100, 5000)
	}
	if rq.BalanceToWithdraw.BaseAmount == 0 || g.Bool() {
		rq.BalanceToWithdraw.QuoteAmount = g.Range(100, 5000)
	}
	raw, err := e.d.Operator.WithdrawMarketFunds(ctx, rq)
	e.note("withdraw from %d: %v", m.acc, err)
	e.sent(raw, err, map[int]bool{m.acc: true, domain.FeeAccount: true}, fmt.Sprintf("withdrawal from %d", m.acc))
}

func (e *env) send(g *sim.Rng) {
	rq := application.SendToManyRequest{MillisatPerByte: 100, Push: !g.Chance(4)}
	for i := g.Intn(3); i >= 0; i-- {
		rq.Outputs = append(rq.Outputs, application.TxOut{Asset: sim.LBTC, Value: int64(g.Range(100, 5000)), Address: e.payee()})
	}
	raw, err := e.d.Wallet.SendToMany(ctx, rq)
	e.note("send: %v", err)
	e.sent(raw, err, map[int]bool{domain.WalletAccount: true, domain.FeeAccount: true}, "send")
}

func (e *env) sent(raw []byte, err error, ok map[int]bool, who string) {
	if err != nil {
		e.r.Count("refused", 1)
		return
	}
	tx, err := transaction.NewTxFromHex(hex.EncodeToString(raw))
	if err != nil {
		e.bad("malformed", "%s: %s", who, err)
		return
	}
	id := tx.TxHash().String()
	e.outs(tx, ok, who+" "+id[:6])
	e.r.Count("sends", 1)
}

// vault compares the log with what the daemon remembers.
func (e *env) vault(when string) {
	repo := e.d.Repo.VaultRepository()
	var v *domain.Vault
	if err := repo.UpdateVault(ctx, func(x *domain.Vault) (*domain.Vault, error) { v = x; return x, nil }); err != nil {
		e.r.Inconclusive("vault: %s", err)
		return
	}
	e.mu.Lock()
	l := make([]given, 0, len(e.given))
	for _, x := range e.given {
		l = append(l, x)
	}
	e.mu.Unlock()
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i].key, l[j].key
		return a.Account*1000000+a.Chain*100000+a.Index < b.Account*1000000+b.Chain*100000+b.Index
	})
	owners := map[int]map[string]domain.AddressInfo{}
	for _, x := range l {
		k := x.key
		at := fmt.Sprintf("%d'/%d/%d", k.Account, k.Chain, k.Index)
		acc, err := v.AccountByIndex(k.Account)
		if err != nil {
			e.bad("forgotten", "%s: account %d of %s: %s", when, k.Account, x.who, err)
			continue
		}
		last := acc.LastExternalIndex
		if k.Chain == domain.InternalChain {
			last = acc.LastInternalIndex
		}
		if k.Index >= last {
			e.bad("forgotten", "%s: %s of %s, next address is %d", when, at, x.who, last)
		}
		if p := acc.DerivationPathByScript[hex.EncodeToString(k.Script)]; p != at {
			e.bad("unsignable", "%s: %s of %s is recorded with path %q", when, at, x.who, p)
		}
		_, i, err := repo.GetAccountByAddress(ctx, x.addr)
		if err != nil || i != k.Account {
			e.bad("unrecognised", "%s: address at %s of %s belongs to account %d, %v", when, at, x.who, i, err)
		}
		if owners[k.Account] == nil {
			info, err := repo.GetAllDerivedAddressesInfoForAccount(ctx, k.Account)
			if err != nil {
				e.bad("forgotten", "%s: addresses of account %d: %s", when, k.Account, err)
			}
			m := map[string]domain.AddressInfo{}
			for _, i := range info {
				m[i.Script] = i
			}
			owners[k.Account] = m
		}
		inf, ok := owners[k.Account][hex.EncodeToString(k.Script)]
		if !ok || inf.Address != k.Address || hex.EncodeToString(inf.BlindingKey) != hex.EncodeToString(k.Blind) || inf.DerivationPath != at {
			e.bad("unrecognised", "%s: the addresses of account %d hold %v %s for %s", when, k.Account, ok, inf.DerivationPath, at)
		}
		e.r.Count("remembered", 1)
	}
	// the operator's list of a market's addresses
	for _, m := range e.mks {
		as, err := e.d.Operator.ListMarketExternalAddresses(ctx, m.m)
		if err != nil {
			e.bad("forgotten", "%s: addresses of market %d: %s", when, m.acc, err)
			continue
		}
		have := map[string]int{}
		for _, a := range as {
			have[a]++
			if have[a] > 1 {
				e.bad("listed-twice", "%s: market %d lists %s twice", when, m.acc, a)
			}
			s, err := sim.ScriptOf(a)
			if err != nil {
				e.bad("malformed", "%s: listed %s: %s", when, a, err)
				continue
			}
			if k := e.ring.Find(s, accounts, 20); k == nil || k.Account != m.acc || k.Address != a {
				e.bad("wrong-account", "%s: market %d lists %s of %+v", when, m.acc, a, k)
			}
		}
		for _, x := range l {
			if x.key.Account == m.acc && x.ext && have[x.addr] == 0 {
				e.bad("unlisted", "%s: market %d does not list index %d", when, m.acc, x.key.Index)
			}
		}
		e.r.Count("listings", 1)
	}
}

// pay sends coins to addresses given out or paid earlier, and expects them.
func (e *env) pay() []wantCoin {
	e.mu.Lock()
	var l []given
	for _, x := range e.given {
		l = append(l, x)
	}
	e.mu.Unlock()
	sort.Slice(l, func(i, j int) bool { return l[i].addr < l[j].addr })
	var w []wantCoin
	for n := 0; n < 4 && len(l) > 0; n++ {
		x := l[e.g.Intn(len(l))]
		v := 1000 + e.g.Range(0, 1000000)
		ops := e.chain.MustFund(true, sim.Pay{Addr: x.addr, Asset: sim.LBTC, Value: v})
		w = append(w, wantCoin{ops[0], x, v})
	}
	return w
}

type wantCoin struct {
	op  sim.Outpoint
	x   given
	val uint64
}

// recognised checks that the coins of earlier addresses are the daemon's.
func (e *env) recognised(w []wantCoin) {
	have := map[sim.Outpoint]domain.Unspent{}
	for _, u := range e.d.Unspents() {
		have[sim.Outpoint{Hash: u.TxID, Index: u.VOut}] = u
	}
	for _, c := range w {
		k := c.x.key
		at := fmt.Sprintf("%d'/%d/%d", k.Account, k.Chain, k.Index)
		u, ok := have[c.op]
		if !ok {
			e.bad("lost-coin", "a coin sent to %s of %s is not found", at, c.x.who)
			continue
		}
		if u.Value != c.val || u.AssetHash != sim.LBTC || u.Address != k.Address {
			e.bad("lost-coin", "a coin of %d sent to %s of %s is recorded as %d of %s at %s", c.val, at, c.x.who, u.Value, u.AssetHash, u.Address)
		}
		e.r.Count("coins recognised", 1)
	}
}

func run(r *sim.Rec, g *sim.Rng, sh int, rounds int) {
	backs := []string{"badger-disk", "inmemory", "badger-disk", "badger-disk"}
	e := &env{r: r, g: g, chain: sim.NewChain(), back: backs[sh%4], ring: sim.NewKeyRing(sim.Words),
		given: map[string]given{}, parsed: map[string]bool{}, theirs: map[string]bool{}, news: map[int]string{}}
	e.name = fmt.Sprintf("shard %d %s", sh, e.back)
	e.dir = filepath.Join(r.Dir, fmt.Sprintf("db%d", sh))
	if e.back == "inmemory" {
		e.repo = sim.OpenRepo(r, "inmemory", sh)
	} else {
		if rm, err := sim.OpenBadger(e.dir); err == nil { // creates the folders
			rm.Close()
		}
	}
	if ok, st := sim.Within(90*time.Second, func() { e.start(true) }); !ok {
		e.bad("hang", "the daemon does not start: %.600s", st)
		return
	}
	if e.d == nil {
		return
	}
	// the funding goes by the ring too
	if err := e.d.FundFee(900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000, 900000); err != nil {
		r.Inconclusive("fee: %s", err)
		return
	}
	for i := 0; i < 2; i++ {
		q := sim.NewAsset()
		m, acc, err := e.d.OpenedMarket(q, []uint64{5000000, 400000, 300000, 200000, 300000}, []uint64{90000000, 8000000, 7000000, 6000000, 5000000})
		if err != nil {
			r.Inconclusive("market: %s", err)
			return
		}
		e.mks = append(e.mks, mkt{m, acc})
	}
	// those taken by the set-up
	for a := 0; a < accounts; a++ {
		l, err := e.d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, a)
		if err != nil {
			continue
		}
		for _, i := range l {
			s, _ := hex.DecodeString(i.Script)
			e.take(s, a, false, "set-up")
		}
	}
	a, k, err := e.d.Wallet.GenerateAddressAndBlindingKey(ctx)
	if err != nil {
		r.Inconclusive("wallet: %s", err)
		return
	}
	e.hand([]application.AddressAndBlindingKey{{Address: a, BlindingKey: k}}, 1, domain.WalletAccount, "wallet address")
	for i := 0; i < 8; i++ {
		e.chain.MustFund(true, sim.Pay{Addr: a, Asset: sim.LBTC, Value: 400000 + uint64(i)})
	}
	rs := 0
	for i := 0; i < rounds && !r.Violated(); i++ {
		if g.Chance(4) {
			e.chain.SetFault(func(op, arg string) error {
				if op == "BroadcastTransaction" {
					return errors.New("injected")
				}
				return nil
			})
		}
		e.batch()
		e.chain.SetFault(nil)
		if g.Chance(3) || i == rounds-1 {
			e.vault(fmt.Sprintf("round %d", i))
		}
		if e.back != "inmemory" && rs < 2 && (g.Chance(4) || i == rounds-1) {
			rs++
			w := e.pay()
			e.restart()
			e.recognised(w)
			e.vault("after a restart")
		} else if g.Chance(4) || i == rounds-1 {
			w := e.pay()
			if err := e.d.Operator.ReloadUtxos(ctx); err != nil {
				r.Inconclusive("reload: %s", err)
			}
			e.recognised(w)
		}
	}
	e.d.Close()
}

func main() {
	r := sim.Start("an address of the daemon is used once, belongs to one account and is remembered")
	sim.UseFastEncrypter()
	defer r.Finish()
	if sh := sim.Shard(); sh >= 0 {
		r.GuardV("C08/panic", "history", func() { run(r, r.Rng("c08"), sh, r.N(8, 30)) })
		return
	}
	r.RunShards(r.N(8, 48))
	r.NeedAtLeast("given out", 100)
	r.NeedAtLeast("paid", 100)
	r.NeedAtLeast("trades", 15)
	r.NeedAtLeast("sends", 15)
	r.NeedAtLeast("restarts", 4)
	r.NeedAtLeast("coins recognised", 20)
	r.NeedAtLeast("failed broadcasts", 3)
	r.Assume("Markets are not dropped: the account of the last market is used again by the next one if it is dropped.")
}
