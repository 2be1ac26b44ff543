// Command c20 restores wallets from their seed and compares them with what the
// chain holds for an own derivation of the seed.
package main

import (
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
)

var ctx = context.Background()

const gap = 20

type env struct {
	r     *sim.Rec
	g     *sim.Rng
	c     *sim.Chain
	words []string
	ring  *sim.KeyRing
	hist  []string
}

func (e *env) say(format string, a ...interface{}) {
	e.hist = append(e.hist, fmt.Sprintf(format, a...))
}

func (e *env) bad(kind, format string, a ...interface{}) {
	h := strings.Join(e.hist, " ; ")
	if len(h) > 1500 {
		h = h[:1500]
	}
	e.r.Violate("C20/"+kind, "%s [%s]", fmt.Sprintf(format, a...), h)
}

// account is what the chain holds for one account.
type account struct {
	last  [2]int // last used index per chain, -1 if none
	coins map[string]coin
	addrs map[string]*sim.KeyAt
}

type coin struct {
	addr  string
	asset string
	value uint64
	conf  bool
}

func (a *account) used() bool { return a.last[0] >= 0 || a.last[1] >= 0 }

// scan looks at the chain with the own derivation of the seed.
func (e *env) scan(acc int) *account {
	a := &account{last: [2]int{-1, -1}, coins: map[string]coin{}, addrs: map[string]*sim.KeyAt{}}
	for ch := 0; ch < 2; ch++ {
		for i, free := 0, 0; free < gap; i++ {
			k := e.ring.At(acc, ch, i)
			txs, err := e.c.GetTransactionsForAddress(k.Address, nil)
			if err != nil {
				panic(err)
			}
			if len(txs) == 0 {
				free++
				continue
			}
			free = 0
			a.last[ch] = i
			for _, op := range e.c.Unspent(k.Script) {
				o, _ := e.c.Out(op)
				x, ok := sim.OpenOut(o, k.Blind)
				if !ok {
					panic("own coin does not open")
				}
				conf, _, _ := e.c.Block(op.Hash)
				a.coins[op.String()] = coin{k.Address, x.Asset, x.Value, conf}
			}
		}
		for i := 0; i <= a.last[ch]; i++ {
			k := e.ring.At(acc, ch, i)
			a.addrs[k.Address] = k
		}
	}
	return a
}

func (e *env) scanAll() []*account {
	l := []*account{e.scan(domain.FeeAccount), e.scan(domain.WalletAccount)}
	for i := domain.MarketAccountStart; ; i++ {
		a := e.scan(i)
		if !a.used() {
			return l
		}
		l = append(l, a)
	}
}

func index(i int) int {
	if i < 2 {
		return i
	}
	return domain.MarketAccountStart + i - 2
}

func (e *env) spread(must bool) []int {
	l := []int{}
	n := e.g.Intn(4)
	if must && n == 0 {
		n = 1
	}
	at := -1
	for ; n > 0; n-- {
		at += 1 + []int{0, 0, 0, 1, 2, 5, 18, 19}[e.g.Intn(8)]
		l = append(l, at)
	}
	return l
}

// use puts coins on addresses of an account.
func (e *env) use(acc int, assets []string, allSpent bool) {
	first := 0
	if e.g.Chance(6) {
		first = 1
	}
	for ch := first; ch < 2; ch++ {
		for _, i := range e.spread(ch == first) {
			k := e.ring.At(acc, ch, i)
			for n := 1 + e.g.Intn(2); n > 0; n-- {
				addr := k.Address
				if e.g.Chance(4) {
					addr = k.Plain
				}
				asset := assets[e.g.Intn(len(assets))]
				ops := e.c.MustFund(!e.g.Chance(5), sim.Pay{addr, asset, 1 + e.g.Log(45)})
				if allSpent || e.g.Chance(3) {
					e.c.SpendExternally(ops[0])
				}
			}
		}
	}
	e.say("account %d used (spent %v, %d assets)", acc, allSpent, len(assets))
}

// synthetic makes up the history of a wallet.
func (e *env) synthetic() {
	if !e.g.Chance(6) {
		e.use(domain.FeeAccount, []string{sim.LBTC}, e.g.Chance(6))
	}
	if e.g.Bool() {
		e.use(domain.WalletAccount, []string{sim.LBTC, sim.NewAsset()}, e.g.Chance(6))
	}
	quotes := []string{}
	for i, n := 0, e.g.Intn(5); i < n; i++ {
		q := sim.NewAsset()
		if len(quotes) > 0 && e.g.Chance(8) {
			q = quotes[0]
		}
		quotes = append(quotes, q)
		acc := domain.MarketAccountStart + i
		switch e.g.Intn(8) {
		case 0:
			e.use(acc, []string{sim.LBTC}, false)
		case 1:
			e.use(acc, []string{q}, false)
		case 2:
			e.use(acc, []string{sim.LBTC, q}, true)
		case 3:
			e.use(acc, []string{sim.LBTC, q, sim.NewAsset()}, false)
		default:
			e.use(acc, []string{sim.LBTC, q}, false)
			// surely both
			for _, a := range []string{sim.LBTC, q} {
				e.c.MustFund(true, sim.Pay{e.ring.At(acc, 0, 0).Address, a, 100000 + e.g.Log(30)})
			}
		}
	}
}

// real lets a daemon use the wallet.
func (e *env) real() bool {
	d := newDaemon(sim.DaemonOpts{Chain: e.c, Slippage: decimal.NewFromFloat(0.05)})
	defer d.Close()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(d.Init(e.words, sim.Pass, false).Err())
	must(d.Wallet.UnlockWallet(ctx, sim.Pass))
	skip := func(f func() (application.AddressAndBlindingKey, error)) {
		for n := e.g.Intn(12); n > 0; n-- {
			if _, err := f(); err != nil {
				panic(err)
			}
		}
	}
	skip(func() (application.AddressAndBlindingKey, error) {
		_, err := d.Operator.DepositFeeAccount(ctx, 1)
		return application.AddressAndBlindingKey{}, err
	})
	must(d.FundFee(20000, 20000, 20000, 30000, 40000))
	for n := 1 + e.g.Intn(2); n > 0; n-- {
		q := sim.NewAsset()
		mk, _, err := d.OpenedMarket(q, []uint64{5e7, 3e7}, []uint64{8e8, 9e8})
		must(err)
		for k := 1 + e.g.Intn(2); k > 0; k-- {
			p, err := d.Propose(mk, e.g.Intn(2), 20000+uint64(e.g.Intn(100000)), "t"+e.g.Hex(4))
			must(err)
			if p.Acc == nil {
				continue
			}
			cm, err := p.Trader.Complete("c"+e.g.Hex(4), p.Acc)
			must(err)
			txid, fail, err := complete(d, cm)
			must(err)
			if fail != nil {
				panic(fail.GetFailureMessage())
			}
			e.r.Count("trades before restoring", 1)
			sim.Quiesce()
			if !e.g.Chance(3) {
				e.c.Confirm(txid)
			}
		}
		if e.g.Bool() {
			must(d.Operator.CloseMarket(ctx, mk.BaseAsset, mk.QuoteAsset))
			skip(func() (application.AddressAndBlindingKey, error) {
				_, err := d.Operator.DepositMarket(ctx, mk.BaseAsset, mk.QuoteAsset, 1)
				return application.AddressAndBlindingKey{}, err
			})
		}
	}
	skip(func() (application.AddressAndBlindingKey, error) {
		_, _, err := d.Wallet.GenerateAddressAndBlindingKey(ctx)
		return application.AddressAndBlindingKey{}, err
	})
	if a, _, err := d.Wallet.GenerateAddressAndBlindingKey(ctx); err == nil && e.g.Bool() {
		e.c.MustFund(true, sim.Pay{a, sim.LBTC, 1e6})
	}
	sim.Quiesce()
	// what the daemon's own coin set says must be on the chain
	e.say("used by a daemon with %d coins", len(d.Unspents()))
	domain.MnemonicStoreManager.Unset()
	return true
}

type faults struct {
	mu    sync.Mutex
	n     map[string]int
	at    int
	len   int
	op    string
	fired int
}

func (f *faults) hit(op, arg string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if op != f.op {
		return nil
	}
	f.n[op]++
	if n := f.n[op]; n >= f.at && n < f.at+f.len {
		f.fired++
		return errors.New("explorer not available")
	}
	return nil
}

func newDaemon(o sim.DaemonOpts) *sim.Daemon {
	d, err := sim.NewDaemon(o)
	if err != nil {
		panic(err)
	}
	return d
}

func complete(d *sim.Daemon, c domain.SwapComplete) (string, domain.SwapFail, error) {
	return d.Trade.TradeComplete(ctx, &c, nil)
}

func (e *env) round(real bool) {
	e.c, e.hist = sim.NewChain(), nil
	domain.MnemonicStoreManager.Unset()
	if real {
		e.words = sim.Words
	} else {
		w, err := newDaemon(sim.DaemonOpts{Chain: e.c, NoListener: true}).Wallet.GenSeed(ctx)
		if err != nil {
			panic(err)
		}
		e.words = w
	}
	e.ring = sim.NewKeyRing(e.words)
	if real {
		e.real()
	} else {
		e.synthetic()
	}
	want := e.scanAll()
	dir := ""
	if e.g.Chance(3) {
		dir, _ = ioutil.TempDir("", "c20")
		defer os.RemoveAll(dir)
	}
	o := sim.DaemonOpts{Chain: e.c, Dir: dir, Slippage: decimal.NewFromFloat(0.05)}
	d := newDaemon(o)
	closed := false
	defer func() {
		if !closed {
			d.Close()
		}
		domain.MnemonicStoreManager.Unset()
	}()

	nAddr := 0
	for i, a := range want {
		if i != 1 {
			nAddr += len(a.addrs)
		}
	}
	restored := false
	for try := 0; try < 4 && !restored; try++ {
		f := &faults{n: map[string]int{}, op: "none"}
		if try < 3 && e.g.Chance(2) {
			f.op = []string{"GetTransactionsForAddress", "GetUnspents"}[e.g.Intn(2)]
			calls := nAddr
			if f.op == "GetTransactionsForAddress" {
				calls = nAddr + (len(want)+1)*2*gap
			}
			if calls == 0 {
				calls = 1
			}
			f.at, f.len = 1+e.g.Intn(calls), 1
			if e.g.Chance(3) {
				f.len = 1 + e.g.Intn(40)
			}
			e.c.SetFault(f.hit)
		}
		var rep sim.InitReply
		if ok, st := sim.Within(120*time.Second, func() { rep = d.Init(e.words, sim.Pass, true) }); !ok {
			e.bad("hang", "the restoration does not end: %.600s", st)
			return
		}
		e.c.SetFault(nil)
		e.r.Eval(fmt.Sprintf("fault %s", f.op))
		err := rep.Err()
		e.say("restore with faults of %s at %d+%d, %d fired: %v", f.op, f.at, f.len, f.fired, err)
		if err == nil {
			restored = true
			if f.fired > 0 {
				e.r.Count("restored in spite of faults", 1)
			}
			continue
		}
		e.r.Count("restorations refused", 1)
		if f.fired == 0 {
			e.bad("refused", "the restoration fails: %s", err)
			return
		}
		if err := d.Wallet.UnlockWallet(ctx, sim.Pass); err != application.ErrWalletNotInitialized {
			e.bad("after-failure", "after a failed restoration unlocking says: %v", err)
			return
		}
		if n := len(d.Unspents()); n != 0 {
			e.bad("after-failure", "a failed restoration leaves %d coins", n)
		}
	}
	if !restored {
		panic("not restored without faults")
	}
	if err := d.Wallet.UnlockWallet(ctx, sim.Pass); err != nil {
		e.bad("unlock", "the restored wallet does not unlock: %s", err)
		return
	}
	e.compare(d, want)
	if dir != "" && e.g.Bool() {
		d.Close()
		closed = true
		domain.MnemonicStoreManager.Unset()
		d = newDaemon(o)
		closed = false
		if err := d.Wallet.UnlockWallet(ctx, sim.Pass); err != nil {
			e.bad("unlock", "the restored wallet does not unlock after a restart: %s", err)
			return
		}
		if err := d.Operator.ReloadUtxos(ctx); err != nil {
			e.bad("reload", "the coins of a restored wallet cannot be reloaded: %s", err)
			return
		}
		e.say("restarted")
		e.compareAddrs(d, want)
		e.r.Count("restarts after restoring", 1)
	}
	e.fresh(d, want)
	e.spend(d, want, real)
}

// compareAddrs compares the vault with the addresses used on the chain.
func (e *env) compareAddrs(d *sim.Daemon, want []*account) {
	v, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil {
		panic(err)
	}
	ids := []int{}
	for i := range v.Accounts {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for i := range want {
		if i < 2 || want[i].used() {
			if _, ok := v.Accounts[index(i)]; !ok {
				e.bad("accounts", "account %d is not restored, the vault has %v", index(i), ids)
				return
			}
		}
	}
	if len(ids) != len(want) {
		e.bad("accounts", "the restored vault has accounts %v, %d were used", ids, len(want))
	}
	for i, a := range want {
		info, err := v.AllDerivedAddressesInfoForAccount(index(i))
		if err != nil {
			e.bad("addresses", "no addresses of account %d: %s", index(i), err)
			continue
		}
		seen := map[string]bool{}
		e.r.Eval(fmt.Sprintf("account %d used to %v", i, a.last))
		for _, x := range info {
			k := a.addrs[x.Address]
			if k == nil {
				e.bad("addresses", "account %d is restored with %s (%s), which is not among its addresses up to the last used one", index(i), x.Address, x.DerivationPath)
				continue
			}
			if x.DerivationPath != fmt.Sprintf("%d'/%d/%d", index(i), k.Chain, k.Index) || x.Script != fmt.Sprintf("%x", k.Script) || string(x.BlindingKey) != string(k.Blind) {
				e.bad("addresses", "address %s of account %d is restored with path %s or other keys", x.Address, index(i), x.DerivationPath)
			}
			seen[x.Address] = true
		}
		e.r.Count("addresses compared", int64(len(info)))
		if len(seen) != len(a.addrs) {
			e.bad("addresses", "account %d is restored with %d addresses, it has %d up to the last used ones (%v)", index(i), len(seen), len(a.addrs), a.last)
		}
	}
}

func (e *env) compare(d *sim.Daemon, want []*account) {
	e.compareAddrs(d, want)
	// coins
	got := map[string]domain.Unspent{}
	for _, u := range d.Unspents() {
		k := fmt.Sprintf("%s:%d", u.TxID, u.VOut)
		if _, ok := got[k]; ok {
			e.bad("coins", "coin %s is restored twice", k)
		}
		got[k] = u
	}
	all := 0
	for i, a := range want {
		sum := map[string]uint64{}
		for k, c := range a.coins {
			if c.conf {
				sum[c.asset] += c.value
			}
			if i == 1 {
				continue // those are asked of the explorer
			}
			all++
			u, ok := got[k]
			if !ok {
				e.bad("coins", "coin %s of account %d (%d of %.6s, confirmed %v) is not restored", k, index(i), c.value, c.asset, c.conf)
				continue
			}
			if u.AssetHash != c.asset || u.Value != c.value || u.Confirmed != c.conf || u.Address != c.addr || u.Spent || u.Locked {
				e.bad("coins", "coin %s of account %d is restored as %d of %.6s confirmed %v spent %v locked %v at %s, it is %d of %.6s confirmed %v at %s",
					k, index(i), u.Value, u.AssetHash, u.Confirmed, u.Spent, u.Locked, u.Address, c.value, c.asset, c.conf, c.addr)
			}
			e.r.Count("coins compared", 1)
		}
		switch {
		case i == 0:
			b, err := d.Operator.FeeAccountBalance(ctx)
			if err != nil || uint64(b) != sum[sim.LBTC] {
				e.bad("balance", "the fee account's balance is %d (%v), the chain holds %d", b, err, sum[sim.LBTC])
			}
		case i == 1:
			if !a.used() {
				continue
			}
			b, err := d.Wallet.GetWalletBalance(ctx)
			if err != nil {
				e.bad("balance", "no wallet balance: %s", err)
				continue
			}
			for k, c := range sum {
				if b[k].ConfirmedBalance != c {
					e.bad("balance", "the wallet holds %d of %.6s confirmed, the chain %d", b[k].ConfirmedBalance, k, c)
				}
			}
		}
	}
	if len(got) != all {
		e.bad("coins", "%d coins are restored, the chain holds %d", len(got), all)
	}
	// markets
	ms, err := d.Operator.ListMarket(ctx)
	if err != nil {
		e.bad("markets", "markets cannot be listed: %s", err)
		return
	}
	if len(ms) != len(want)-2 {
		e.bad("markets", "%d markets are restored, %d were used", len(ms), len(want)-2)
	}
	pairs := map[string]int{}
	mrk, err := d.Repo.MarketRepository().GetAllMarkets(ctx)
	if err != nil {
		panic(err)
	}
	byAcc := map[int]domain.Market{}
	for _, m := range mrk {
		byAcc[m.AccountIndex] = m
		if m.QuoteAsset != "" {
			pairs[m.QuoteAsset]++
		}
	}
	for q, n := range pairs {
		if n > 1 {
			e.bad("markets", "%d markets are restored with the same quote asset %.6s", n, q)
		}
	}
	quoteOf := map[string]int{}
	for i := 2; i < len(want); i++ {
		if q := pair(want[i]); q != "" {
			quoteOf[q]++
		}
	}
	for i := 2; i < len(want); i++ {
		m, ok := byAcc[index(i)]
		if !ok {
			e.bad("markets", "no market with account %d is restored", index(i))
			continue
		}
		if m.Tradable {
			e.bad("markets", "the market of account %d is restored open", index(i))
		}
		q := pair(want[i])
		if q != "" && quoteOf[q] > 1 {
			continue // one of them at most
		}
		if q == "" && m.IsFunded() || q != "" && (m.BaseAsset != sim.LBTC || m.QuoteAsset != q) {
			e.bad("markets", "the market of account %d is restored with assets %.6q and %.6q, its coins are of LBTC and %.6q", index(i), m.BaseAsset, m.QuoteAsset, q)
		}
		if q != "" {
			e.r.Count("markets with both assets restored", 1)
		} else {
			e.r.Count("markets without both assets restored", 1)
		}
	}
	e.r.Count("restorations", 1)
}

// pair is the quote asset of an account holding coins of exactly the base asset
// and another one.
func pair(a *account) string {
	set := map[string]bool{}
	for _, c := range a.coins {
		set[c.asset] = true
	}
	if len(set) != 2 || !set[sim.LBTC] {
		return ""
	}
	for k := range set {
		if k != sim.LBTC {
			return k
		}
	}
	return ""
}

// fresh checks that new addresses follow the last used ones.
func (e *env) fresh(d *sim.Daemon, want []*account) {
	n := 1 + e.g.Intn(3)
	l, err := d.Operator.DepositFeeAccount(ctx, n)
	if err != nil {
		e.bad("fresh", "no new address of the fee account: %s", err)
		return
	}
	check := func(acc, at int, addr string) {
		if k := e.ring.At(acc, 0, at); k.Address != addr {
			e.bad("fresh", "the next address of account %d is %s, not the one at index %d", acc, addr, at)
		}
		e.r.Count("new addresses", 1)
	}
	for i, a := range l {
		check(domain.FeeAccount, want[0].last[0]+1+i, a.Address)
	}
	a, _, err := d.Wallet.GenerateAddressAndBlindingKey(ctx)
	if err != nil {
		e.bad("fresh", "no new address of the wallet: %s", err)
		return
	}
	check(domain.WalletAccount, want[1].last[0]+1, a)
	for i := 2; i < len(want); i++ {
		q := pair(want[i])
		if _, acc := d.MarketOf(q); q == "" || acc != index(i) {
			continue
		}
		l, err := d.Operator.DepositMarket(ctx, sim.LBTC, q, 1)
		if err != nil {
			e.bad("fresh", "no new address of market %d: %s", index(i), err)
			continue
		}
		check(index(i), want[i].last[0]+1, l[0].Address)
	}
	l, err = d.Operator.DepositMarket(ctx, "", "", 1)
	if err != nil {
		e.bad("fresh", "no new market: %s", err)
		return
	}
	check(index(len(want)), 0, l[0].Address)
}

// spend uses the restored coins.
func (e *env) spend(d *sim.Daemon, want []*account, real bool) {
	fee := uint64(0)
	for _, c := range want[0].coins {
		if c.conf && c.value >= 5000 {
			fee++
		}
	}
	if fee == 0 || !real && !e.g.Chance(4) {
		return
	}
	for i := 2; i < len(want); i++ {
		q := pair(want[i])
		if _, acc := d.MarketOf(q); q == "" || acc != index(i) || fee == 0 {
			continue
		}
		sum := map[string]uint64{}
		for _, c := range want[i].coins {
			if c.conf {
				sum[c.asset] += c.value
			}
		}
		if sum[sim.LBTC] < 100000 || sum[q] < 100000 || sum[sim.LBTC] > 1<<46 || sum[q] > 1<<46 {
			continue
		}
		mk := application.Market{BaseAsset: sim.LBTC, QuoteAsset: q}
		if err := d.Operator.OpenMarket(ctx, sim.LBTC, q); err != nil {
			e.bad("spend", "the restored market %d does not open: %s", index(i), err)
			continue
		}
		p, err := d.Propose(mk, 0, 1+sum[sim.LBTC]/100, "r"+e.g.Hex(4))
		if errors.Is(err, sim.ErrNoPrice) {
			continue // too lopsided
		}
		if err != nil || p.Acc == nil {
			msg := ""
			if err == nil && p.Fail != nil {
				msg = p.Fail.GetFailureMessage()
			}
			e.bad("spend", "the restored market %d refuses a trade: %v %s", index(i), err, msg)
			continue
		}
		fee--
		cm, err := p.Trader.Complete("c", p.Acc)
		if err != nil {
			e.bad("spend", "the accepted trade of the restored market cannot be signed: %s", err)
			continue
		}
		_, fail, err := complete(d, cm)
		if err != nil || fail != nil {
			e.bad("spend", "the trade of the restored market %d does not complete: %v %v", index(i), err, fail)
			continue
		}
		e.r.Count("restored coins traded", 1)
		sim.Quiesce()
	}
}

func shard(r *sim.Rec) {
	sim.UseFastEncrypter()
	e := &env{r: r, g: r.Rng("c20")}
	n := r.N(7, 40)
	for i := 0; i < n && !r.Violated(); i++ {
		e.round(i%5 == 4)
	}
}

func main() {
	r := sim.Start("a wallet restored from its seed holds exactly what the chain holds for the seed")
	defer r.Finish()
	if sim.Shard() >= 0 {
		r.GuardV("C20/harness", "monitor", func() { shard(r) })
		return
	}
	r.RunShards(r.N(8, 40))
	r.NeedAtLeast("restorations", 20)
	r.NeedAtLeast("restorations refused", 5)
	r.NeedAtLeast("coins compared", 100)
	r.NeedAtLeast("new addresses", 50)
	r.NeedAtLeast("restored coins traded", 4)
}
