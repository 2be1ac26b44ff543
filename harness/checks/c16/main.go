// Monitor of C16: acknowledged changes survive a kill, transactions are whole.
package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
)

var ctx = context.Background()
var errBoom = errors.New("boom")

const accBase = domain.MarketAccountStart

func tradeID(n int) uuid.UUID {
	return uuid.NewSHA1(uuid.Nil, []byte(fmt.Sprintf("trade-%d", n)))
}

func coin(n int) domain.UnspentKey {
	return domain.UnspentKey{TxID: fmt.Sprintf("%064x", n+1), VOut: uint32(n % 3)}
}

func unspentOf(n int) domain.Unspent {
	k := coin(n)
	return domain.Unspent{TxID: k.TxID, VOut: k.VOut, Value: uint64(n + 1), AssetHash: sim.LBTC, Address: "a", Confirmed: true}
}

// One numbered change: trade n with all its fields, the coin it locks, the
// vault's next address and the market's counter, in one transaction.
func change(rm ports.RepoManager, n int, fail bool) error {
	_, err := rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
		id := tradeID(n)
		if _, err := rm.TradeRepository().GetOrCreateTrade(c, &id); err != nil {
			return nil, err
		}
		if err := rm.TradeRepository().UpdateTrade(c, &id, func(t *domain.Trade) (*domain.Trade, error) {
			t.MarketQuoteAsset = "quote"
			t.TxID = coin(n).TxID
			t.PsetBase64 = strings.Repeat("p", 200+(n*997)%9000)
			t.ExpiryTime = uint64(n)
			return t, nil
		}); err != nil {
			return nil, err
		}
		if cnt, err := rm.UnspentRepository().LockUnspents(c, []domain.UnspentKey{coin(n)}, id); err != nil || cnt != 1 {
			return nil, fmt.Errorf("lock: %d %v", cnt, err)
		}
		if err := rm.MarketRepository().UpdateMarket(c, accBase, func(m *domain.Market) (*domain.Market, error) {
			m.FixedFee.BaseFee++
			return m, nil
		}); err != nil {
			return nil, err
		}
		if err := rm.VaultRepository().UpdateVault(c, func(v *domain.Vault) (*domain.Vault, error) {
			v.InitAccount(5)
			v.Accounts[5].LastExternalIndex++
			return v, nil
		}); err != nil {
			return nil, err
		}
		if fail {
			return nil, errBoom
		}
		return nil, nil
	})
	return err
}

func setup(rm ports.RepoManager) error {
	if _, err := rm.VaultRepository().GetOrCreateVault(ctx, sim.Words, sim.Pass, sim.Net); err != nil {
		return err
	}
	for i := 0; i < 2; i++ {
		if _, err := rm.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: accBase + i, Fee: 25}); err != nil {
			return err
		}
	}
	return nil
}

// ---- the process that gets killed ----

func child(dir string) {
	rm, err := sim.OpenBadger(dir)
	if err != nil {
		fmt.Println("FATAL open:", err)
		os.Exit(3)
	}
	if err := setup(rm); err != nil {
		fmt.Println("FATAL setup:", err)
		os.Exit(3)
	}
	first, _ := strconv.Atoi(os.Getenv("VERIF_FIRST"))
	g := sim.NewRng(uint64(first) + 7)
	fmt.Println("READY")
	var mu sync.Mutex
	say := func(f string, a ...interface{}) {
		mu.Lock()
		fmt.Fprintf(os.Stdout, f+"\n", a...)
		mu.Unlock()
	}
	var next int64 = int64(first)
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		cg := g.Fork()
		w := w
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				n := int(atomic.AddInt64(&next, 1))
				switch c := cg.Intn(10); {
				case c < 6:
					if err := rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{unspentOf(n)}); err != nil {
						say("ERR add %d %s", n, err)
						continue
					}
					say("BEGIN %d", n)
					if err := change(rm, n, false); err != nil {
						say("FAILED %d %s", n, err)
					} else {
						say("ACK %d", n)
					}
				case c < 8:
					rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{unspentOf(n)})
					if err := change(rm, n, true); err == nil {
						say("NOERR %d", n)
					} else {
						say("FAILED %d", n)
					}
				case w == 0:
					say("PBEGIN %d", n)
					if err := rm.MarketRepository().UpdatePrices(ctx, accBase+1, domain.Prices{
						BasePrice: decimal.NewFromInt(int64(n)), QuotePrice: decimal.NewFromInt(int64(2 * n)),
					}); err == nil {
						say("PACK %d", n)
					}
				case w == 1:
					// a plain update outside of any transaction
					say("UBEGIN %d", n)
					if err := rm.MarketRepository().UpdateMarket(ctx, accBase+1, func(m *domain.Market) (*domain.Market, error) {
						m.FixedFee.BaseFee = int64(n)
						m.FixedFee.QuoteFee = int64(n)
						return m, nil
					}); err == nil {
						say("UACK %d", n)
					}
				default:
					say("CBEGIN %d", n)
					id := tradeID(n)
					if _, err := rm.TradeRepository().GetOrCreateTrade(ctx, &id); err == nil {
						if err := rm.TradeRepository().UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
							t.TxID = "plain"
							t.MarketQuoteAsset = "plain"
							return t, nil
						}); err == nil {
							say("CACK %d", n)
						}
					}
				}
			}
		}()
	}
	wg.Wait()
}

type ledger struct {
	begun, acked, failed map[int]bool
	plain                map[int]bool
	price, fee           int // last acknowledged
	pmaybe, fmaybe       int // last begun
	next                 int
	resolved             map[int]bool // begun ones seen after a restart: committed or not, for good
}

func crash(r *sim.Rec, gens, runs int) {
	for run := 0; run < runs; run++ {
		dir := filepath.Join(r.Dir, fmt.Sprintf("crash%d", run))
		g := r.Rng(fmt.Sprintf("crash-%d", run))
		l := &ledger{begun: map[int]bool{}, acked: map[int]bool{}, failed: map[int]bool{}, plain: map[int]bool{}, resolved: map[int]bool{}}
		for gen := 0; gen < gens; gen++ {
			if !generation(r, dir, g, l, run, gen) {
				break
			}
		}
		os.RemoveAll(dir)
	}
}

// tear leaves behind what a kill in the middle of a write leaves: the first
// bytes of an entry at the end of the newest value log, that no one was told
// is written.
func tear(r *sim.Rec, dir string, g *sim.Rng) {
	dirs := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".vlog") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	for d := range dirs {
		logs, _ := filepath.Glob(filepath.Join(d, "*.vlog"))
		sort.Strings(logs)
		buf, err := os.ReadFile(logs[len(logs)-1])
		const header = 20 // of the file, the first entry follows
		if err != nil || len(buf) < header+40 {
			continue
		}
		f, err := os.OpenFile(logs[len(logs)-1], os.O_WRONLY|os.O_APPEND, 0)
		if err != nil {
			continue
		}
		f.Write(buf[header : header+1+g.Intn(30)])
		f.Close()
		r.Count("torn-tails", 1)
	}
}

func generation(r *sim.Rec, dir string, g *sim.Rng, l *ledger, run, gen int) bool {
	cmd := exec.Command(os.Getenv("VERIF_BIN"))
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir, fmt.Sprintf("VERIF_FIRST=%d", l.next))
	out, err := cmd.StdoutPipe()
	if err != nil {
		r.Inconclusive("pipe: %s", err)
		return false
	}
	if err := cmd.Start(); err != nil {
		r.Inconclusive("start: %s", err)
		return false
	}
	killAfter := g.Intn(60)
	delay := time.Duration(g.Intn(3000)) * time.Microsecond
	acks := 0
	var once sync.Once
	kill := func() {
		once.Do(func() {
			go func() {
				time.Sleep(delay)
				cmd.Process.Kill()
			}()
		})
	}
	wd := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	ready := false
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if len(f) == 0 {
			continue
		}
		n := 0
		if len(f) > 1 {
			n, _ = strconv.Atoi(f[1])
		}
		if n > l.next {
			l.next = n
		}
		switch f[0] {
		case "READY":
			ready = true
			if killAfter == 0 {
				kill()
			}
		case "FATAL":
			r.Violate("reopen", "generation %d of run %d: the storage does not open after a kill: %s", gen, run, sc.Text())
			kill()
		case "BEGIN":
			l.begun[n] = true
		case "ACK":
			l.acked[n] = true
			r.Count("acknowledged", 1)
			if acks++; acks >= killAfter {
				kill()
			}
		case "FAILED":
			l.failed[n] = true
			delete(l.begun, n)
			r.Count("failed-changes", 1)
		case "NOERR":
			r.Violate("error-swallowed", "a transaction whose handler failed reports success")
		case "ERR":
			r.Violate("unexpected-error", "%s", sc.Text())
		case "PBEGIN":
			l.pmaybe = n
		case "PACK":
			l.price = n
		case "UBEGIN":
			l.fmaybe = n
		case "UACK":
			l.fee = n
		case "CACK":
			l.plain[n] = true
		}
		if acks < killAfter && acks > 0 && g.Intn(400) == 0 {
			kill()
		}
	}
	wd.Stop()
	kill()
	cmd.Wait()
	if !ready {
		r.Count("killed-before-ready", 1)
	}
	l.next += 10
	r.Count("kills", 1)
	if ready && g.Intn(2) == 0 {
		tear(r, dir, g)
	}

	rm, err := sim.OpenBadger(dir)
	if err != nil {
		r.Violate("reopen", "the storage does not open after a kill: %s", err)
		return false
	}
	defer rm.Close()
	if err := setup(rm); err != nil {
		r.Violate("reopen", "the storage is unusable after a kill: %s", err)
		return false
	}
	committed := 0
	for n := 0; n <= l.next; n++ {
		if !l.begun[n] && !l.failed[n] {
			continue
		}
		if err := rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{unspentOf(n)}); err != nil {
			r.Violate("unexpected-error", "%s", err)
		}
		t, _ := rm.TradeRepository().GetTradeByTxID(ctx, coin(n).TxID)
		u, err := rm.UnspentRepository().GetUnspentWithKey(ctx, coin(n))
		if err != nil || u == nil {
			r.Violate("unexpected-error", "coin: %v", err)
			continue
		}
		hasT := t != nil && t.ID == tradeID(n) && t.ExpiryTime == uint64(n) && len(t.PsetBase64) == 200+(n*997)%9000
		hasL := u.Locked && u.LockedBy != nil && *u.LockedBy == tradeID(n)
		if (t != nil || u.Locked) && !(hasT && hasL) {
			r.Violate("torn-transaction", "after a kill change %d is half there: trade %v, lock %v", n, hasT, hasL)
		}
		if l.acked[n] && !(hasT && hasL) {
			r.Violate("acknowledged-lost", "acknowledged change %d is lost: trade %v, lock %v (run %d generation %d)", n, hasT, hasL, run, gen)
		}
		if l.failed[n] && (t != nil || u.Locked) {
			r.Violate("failed-visible", "change %d was reported as failed but is stored", n)
		}
		if hasT && hasL {
			committed++
		}
		if !l.acked[n] && l.begun[n] {
			r.Count("in-flight-at-kill", 1)
			// what a restart showed stays so
			if old, ok := l.resolved[n]; ok && old != (hasT && hasL) {
				r.Violate("unstable", "change %d was visible=%v after one restart and %v after the next", n, old, hasT && hasL)
			}
			l.resolved[n] = hasT && hasL
		}
	}
	m, err := rm.MarketRepository().GetMarketByAccount(ctx, accBase)
	v, verr := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if err != nil || m == nil || verr != nil {
		r.Violate("acknowledged-lost", "market or vault gone after a kill: %v %v", err, verr)
		return false
	}
	idx := 0
	if a := v.Accounts[5]; a != nil {
		idx = a.LastExternalIndex
	}
	if int(m.FixedFee.BaseFee) != committed || idx != committed {
		r.Violate("torn-transaction", "%d changes are stored but the market counts %d and the vault %d", committed, m.FixedFee.BaseFee, idx)
	}
	m2, err := rm.MarketRepository().GetMarketByAccount(ctx, accBase+1)
	if err != nil || m2 == nil {
		r.Violate("acknowledged-lost", "second market gone: %v", err)
		return false
	}
	p := int(m2.Price.BasePrice.IntPart())
	if p != l.price && p != l.pmaybe {
		r.Violate("price-lost", "price %d stored, %d acknowledged", p, l.price)
	}
	if !m2.Price.QuotePrice.Equal(decimal.NewFromInt(int64(2 * p))) {
		r.Violate("torn-price", "base price %d with quote price %s", p, m2.Price.QuotePrice)
	}
	l.price, l.pmaybe = p, p
	fee := int(m2.FixedFee.BaseFee)
	if fee != l.fee && fee != l.fmaybe || m2.FixedFee.QuoteFee != m2.FixedFee.BaseFee {
		r.Violate("update-lost", "market update %d/%d stored, %d acknowledged", fee, m2.FixedFee.QuoteFee, l.fee)
	}
	l.fee, l.fmaybe = fee, fee
	for n := range l.plain {
		id := tradeID(n)
		t, err := rm.TradeRepository().GetOrCreateTrade(ctx, &id)
		if err != nil || t.TxID != "plain" {
			r.Violate("acknowledged-lost", "acknowledged plain trade update %d is lost (%v)", n, err)
		}
	}
	r.Eval(fmt.Sprintf("kill-%d-%d-%d", run, gen, committed))
	if gen == 0 && run < 2 {
		r.Sample(fmt.Sprintf("killed after %d acknowledgements + %s: %d changes stored, %d reported failed", acks, delay, committed, len(l.failed)))
	}
	return !r.Violated()
}

// ---- concurrent transactions ----

func concurrent(r *sim.Rec, backend string, no int, workers, each int) {
	rm := sim.OpenRepo(r, backend, no)
	defer rm.Close()
	if err := setup(rm); err != nil {
		r.Violate("setup", "%s", err)
		return
	}
	id := tradeID(0)
	if _, err := rm.TradeRepository().GetOrCreateTrade(ctx, &id); err != nil {
		r.Violate("setup", "%s", err)
		return
	}
	for i := 0; i < 2; i++ {
		rm.MarketRepository().UpdateMarket(ctx, accBase+i, func(m *domain.Market) (*domain.Market, error) {
			m.FixedFee.QuoteFee = 100000
			return m, nil
		})
	}
	rm.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) { v.InitAccount(0); v.InitAccount(1); return v, nil })
	var trades, mkts, vault, prices int64
	var txTrades, txVault int64
	var wg sync.WaitGroup
	stop := make(chan struct{})
	bad := func(err error, what string) {
		r.Violate("concurrent-error:"+what, "%s: %s", what, err)
	}
	g := r.Rng(fmt.Sprint("concurrent", backend, no))
	for w := 0; w < workers; w++ {
		wg.Add(1)
		cg := g.Fork()
		w := w
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				switch cg.Intn(7) {
				case 0: // plain increments of one trade
					if err := rm.TradeRepository().UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
						t.ExpiryTime++
						return t, nil
					}); err != nil {
						bad(err, "UpdateTrade")
					} else {
						atomic.AddInt64(&trades, 1)
					}
				case 1:
					if err := rm.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
						v.Accounts[0].LastExternalIndex++
						v.Accounts[1].LastInternalIndex++
						return v, nil
					}); err != nil {
						bad(err, "UpdateVault")
					} else {
						atomic.AddInt64(&vault, 1)
					}
				case 2:
					if err := rm.MarketRepository().UpdateMarket(ctx, accBase, func(m *domain.Market) (*domain.Market, error) {
						m.FixedFee.BaseFee++
						return m, nil
					}); err != nil {
						bad(err, "UpdateMarket")
					} else {
						atomic.AddInt64(&mkts, 1)
					}
				case 3: // a transfer between two markets, sometimes given up half way
					amt := int64(1 + cg.Intn(50))
					giveUp := cg.Chance(3)
					from, to := accBase, accBase+1
					if cg.Bool() {
						from, to = to, from
					}
					_, err := rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
						if err := rm.MarketRepository().UpdateMarket(c, from, func(m *domain.Market) (*domain.Market, error) {
							m.FixedFee.QuoteFee -= amt
							return m, nil
						}); err != nil {
							return nil, err
						}
						if cg.Chance(2) {
							sim.Sleep(cg.Intn(300))
						}
						if giveUp {
							return nil, errBoom
						}
						return nil, rm.MarketRepository().UpdateMarket(c, to, func(m *domain.Market) (*domain.Market, error) {
							m.FixedFee.QuoteFee += amt
							return m, nil
						})
					})
					if giveUp != (err != nil) {
						r.Violate("transfer-error", "a transfer returned %v, given up: %v", err, giveUp)
					}
					r.Count("transfers", 1)
				case 4: // trade and vault together
					giveUp := cg.Chance(3)
					_, err := rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
						if err := rm.TradeRepository().UpdateTrade(c, &id, func(t *domain.Trade) (*domain.Trade, error) {
							t.SettlementTime++
							return t, nil
						}); err != nil {
							return nil, err
						}
						if err := rm.VaultRepository().UpdateVault(c, func(v *domain.Vault) (*domain.Vault, error) {
							v.Accounts[0].LastInternalIndex++
							return v, nil
						}); err != nil {
							return nil, err
						}
						if giveUp {
							return nil, errBoom
						}
						return nil, nil
					})
					if err == nil {
						atomic.AddInt64(&txTrades, 1)
						atomic.AddInt64(&txVault, 1)
					} else if !giveUp {
						bad(err, "RunTransaction")
					}
				case 5: // a reader sees whole transfers only
					_, err := rm.RunTransaction(ctx, true, func(c context.Context) (interface{}, error) {
						a, err := rm.MarketRepository().GetMarketByAccount(c, accBase)
						if err != nil {
							return nil, err
						}
						sim.Sleep(cg.Intn(300))
						b, err := rm.MarketRepository().GetMarketByAccount(c, accBase+1)
						if err != nil {
							return nil, err
						}
						if a.FixedFee.QuoteFee+b.FixedFee.QuoteFee != 200000 {
							r.Violate("torn-read", "a reader saw half a transfer: %d and %d", a.FixedFee.QuoteFee, b.FixedFee.QuoteFee)
						}
						t, err := rm.TradeRepository().GetOrCreateTrade(c, &id)
						if err != nil {
							return nil, err
						}
						v, err := rm.VaultRepository().GetOrCreateVault(c, nil, "", nil)
						if err != nil {
							return nil, err
						}
						if int(t.SettlementTime) != v.Accounts[0].LastInternalIndex {
							r.Violate("torn-read", "a reader saw trade %d and vault %d of one transaction", t.SettlementTime, v.Accounts[0].LastInternalIndex)
						}
						r.Count("reads", 1)
						return nil, nil
					})
					if err != nil {
						bad(err, "read")
					}
				case 6: // prices in their own transaction
					giveUp := cg.Bool()
					n := int64(1 + i + 1000*w)
					_, err := rm.RunPricesTransaction(ctx, false, func(c context.Context) (interface{}, error) {
						if err := rm.MarketRepository().UpdatePrices(c, accBase, domain.Prices{BasePrice: decimal.NewFromInt(n), QuotePrice: decimal.NewFromInt(n)}); err != nil {
							return nil, err
						}
						if err := rm.MarketRepository().UpdatePrices(c, accBase+1, domain.Prices{BasePrice: decimal.NewFromInt(n), QuotePrice: decimal.NewFromInt(n)}); err != nil {
							return nil, err
						}
						if giveUp {
							return nil, errBoom
						}
						return nil, nil
					})
					if giveUp != (err != nil) {
						r.Violate("price-error", "a price update returned %v, given up: %v", err, giveUp)
					}
					if !giveUp {
						atomic.AddInt64(&prices, 1)
					}
				}
				r.Eval("")
			}
		}()
	}
	go func() { wg.Wait(); close(stop) }()
	select {
	case <-stop:
	case <-time.After(240 * time.Second):
		r.Violate("stuck", "concurrent transactions do not end")
		return
	}
	t, err := rm.TradeRepository().GetOrCreateTrade(ctx, &id)
	if err != nil {
		bad(err, "final read")
		return
	}
	if int64(t.ExpiryTime) != trades {
		r.Violate("lost-update:trade", "%d trade updates succeeded, %d are stored [%s]", trades, t.ExpiryTime, backend)
	}
	if int64(t.SettlementTime) != txTrades {
		r.Violate("lost-update:tx-trade", "%d transactional trade updates succeeded, %d are stored [%s]", txTrades, t.SettlementTime, backend)
	}
	v, _ := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
	if int64(v.Accounts[0].LastExternalIndex) != vault || int64(v.Accounts[1].LastInternalIndex) != vault {
		r.Violate("lost-update:vault", "%d vault updates succeeded, %d are stored [%s]", vault, v.Accounts[0].LastExternalIndex, backend)
	}
	if int64(v.Accounts[0].LastInternalIndex) != txVault {
		r.Violate("lost-update:tx-vault", "%d transactional vault updates succeeded, %d are stored [%s]", txVault, v.Accounts[0].LastInternalIndex, backend)
	}
	a, _ := rm.MarketRepository().GetMarketByAccount(ctx, accBase)
	b, _ := rm.MarketRepository().GetMarketByAccount(ctx, accBase+1)
	if a.FixedFee.BaseFee != mkts {
		r.Violate("lost-update:market", "%d market updates succeeded, %d are stored [%s]", mkts, a.FixedFee.BaseFee, backend)
	}
	if a.FixedFee.QuoteFee+b.FixedFee.QuoteFee != 200000 {
		r.Violate("not-conserved", "transfers between markets do not conserve: %d + %d", a.FixedFee.QuoteFee, b.FixedFee.QuoteFee)
	}
	if prices > 0 && !a.Price.BasePrice.Equal(b.Price.BasePrice) {
		r.Violate("torn-price", "prices of one transaction differ: %s %s", a.Price.BasePrice, b.Price.BasePrice)
	}
	r.Count("concurrent-updates", trades+mkts+vault+txTrades)
	r.Eval(fmt.Sprintf("%s-%d-%d-%d-%d", backend, trades, mkts, vault, txTrades))
}

// rollback checks that a failing handler leaves nothing of any repository.
func rollback(r *sim.Rec, n int) {
	rm := sim.OpenRepo(r, "badger-mem", 0)
	defer rm.Close()
	if err := setup(rm); err != nil {
		r.Violate("setup", "%s", err)
		return
	}
	snap := func() string {
		ts, _ := rm.TradeRepository().GetAllTrades(ctx)
		s := fmt.Sprint(len(ts))
		for _, t := range ts {
			s += fmt.Sprint(t.ID, t.Status, t.TxID, t.ExpiryTime)
		}
		ms, _ := rm.MarketRepository().GetAllMarkets(ctx)
		for _, m := range ms {
			s += fmt.Sprint(m.AccountIndex, m.Fee, m.FixedFee, m.Tradable, m.QuoteAsset)
		}
		v, _ := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
		s += v.EncryptedMnemonic
		for i := 0; i < 20; i++ {
			if a := v.Accounts[i]; a != nil {
				s += fmt.Sprint(i, a.LastExternalIndex, a.LastInternalIndex)
			}
		}
		for _, u := range rm.UnspentRepository().GetAllUnspents(ctx) {
			s += fmt.Sprint(u.Key(), u.Locked, u.Spent, u.Confirmed)
		}
		return s
	}
	rm.UnspentRepository().AddUnspents(ctx, []domain.Unspent{unspentOf(1), unspentOf(2)})
	id := tradeID(5)
	rm.TradeRepository().GetOrCreateTrade(ctx, &id)
	g := r.Rng("rollback")
	for i := 0; i < n; i++ {
		before := snap()
		stepAt, k := g.Intn(8), 0
		steps := []string{}
		do := func(name string, f func() error) error {
			steps = append(steps, name)
			if err := f(); err != nil {
				return err
			}
			if k++; k > stepAt {
				return errBoom
			}
			return nil
		}
		_, err := rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
			all := []func() error{
				func() error {
					return do("new trade", func() error { _, e := rm.TradeRepository().GetOrCreateTrade(c, nil); return e })
				},
				func() error {
					return do("update trade", func() error {
						return rm.TradeRepository().UpdateTrade(c, &id, func(t *domain.Trade) (*domain.Trade, error) { t.TxID = "x"; t.ExpiryTime++; return t, nil })
					})
				},
				func() error {
					return do("new market", func() error {
						return rm.MarketRepository().UpdateMarket(c, accBase, func(m *domain.Market) (*domain.Market, error) { m.Fee = 1; return m, nil })
					})
				},
				func() error {
					return do("delete market", func() error { return rm.MarketRepository().DeleteMarket(c, accBase+1) })
				},
				func() error {
					return do("vault", func() error {
						return rm.VaultRepository().UpdateVault(c, func(v *domain.Vault) (*domain.Vault, error) { v.InitAccount(9); return v, nil })
					})
				},
				func() error {
					return do("lock", func() error {
						_, e := rm.UnspentRepository().LockUnspents(c, []domain.UnspentKey{coin(1)}, id)
						return e
					})
				},
				func() error {
					return do("open", func() error {
						if e := rm.MarketRepository().UpdateMarket(c, accBase, func(m *domain.Market) (*domain.Market, error) {
							m.BaseAsset, m.QuoteAsset = "b", "q"
							return m, nil
						}); e != nil {
							return e
						}
						return rm.MarketRepository().OpenMarket(c, "q")
					})
				},
				func() error {
					return do("unlock", func() error { _, e := rm.UnspentRepository().UnlockUnspents(c, []domain.UnspentKey{coin(1)}); return e })
				},
			}
			for _, j := range g.Perm(len(all)) {
				if err := all[j](); err != nil {
					return nil, err
				}
			}
			return nil, errBoom
		})
		if err == nil {
			r.Violate("error-swallowed", "a transaction whose handler failed reports success")
		}
		if after := snap(); after != before {
			r.Violate("failed-visible", "a failed transaction (%s) left a trace:\n%s\n%s", strings.Join(steps, ", "), before, after)
		}
		r.Count("rollbacks", 1)
		r.Eval(strings.Join(steps, ","))

		before = snap()
		_, err = rm.RunUnspentsTransaction(ctx, false, func(c context.Context) (interface{}, error) {
			rm.UnspentRepository().AddUnspents(c, []domain.Unspent{unspentOf(40 + i)})
			rm.UnspentRepository().SpendUnspents(c, []domain.UnspentKey{coin(2)})
			return nil, errBoom
		})
		if after := snap(); err == nil || after != before {
			r.Violate("failed-visible", "a failed unspents transaction left a trace (%v)", err)
		}
	}
}

func main() {
	if dir := os.Getenv("VERIF_CHILD"); dir != "" {
		sim.UseFastEncrypter()
		domain.MnemonicStoreManager = &sim.MemStore{}
		child(dir)
		return
	}
	r := sim.Start("a writer process is killed (SIGKILL) after a random number of acknowledged multi-record transactions and reopened, several generations per database; concurrent counters, transfers and readers; failed transactions of random content; distinct: kills by number of stored changes, contents of failed transactions")
	sim.UseFastEncrypter()
	domain.MnemonicStoreManager = &sim.MemStore{}
	rollback(r, r.N(100, 1000))
	for i := 0; i < r.N(3, 20); i++ {
		concurrent(r, "badger-mem", i, 8, 120)
	}
	concurrent(r, "badger-disk", 900, 6, 60)
	crash(r, r.N(5, 10), r.N(3, 40))
	r.NeedAtLeast("kills", 8)
	r.NeedAtLeast("torn-tails", 4)
	r.NeedAtLeast("acknowledged", 100)
	r.NeedAtLeast("transfers", 50)
	r.NeedAtLeast("reads", 50)
	r.Assume("a kill ends the process, not the operating system: what was handed to the kernel is kept")
	r.Finish()
}
