// Monitor of C24: both storage back ends against a model of what was written.
package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"google.golang.org/protobuf/proto"
)

var ctx = context.Background()
var errBoom = errors.New("boom")

type run struct {
	r       *sim.Rec
	g       *sim.Rng
	backend string
	rm      ports.RepoManager
	trades  map[uuid.UUID]domain.Trade
	markets map[int]domain.Market
	deleted map[string]bool
	addrs   map[int][]domain.AddressInfo // per account, in derivation order
	ext     map[string]bool
	vault   *domain.Vault
	quotes  []string
	log     []string
}

func (x *run) note(f string, a ...interface{}) { x.log = append(x.log, fmt.Sprintf(f, a...)) }

func (x *run) bad(sig, f string, a ...interface{}) {
	l := x.log
	if len(l) > 25 {
		l = l[len(l)-25:]
	}
	x.r.Violate(sig+":"+strings.Split(x.backend, "-")[0], "%s [%s] after %s", fmt.Sprintf(f, a...), x.backend, strings.Join(l, "; "))
}

func canon(v interface{}) string {
	b, _ := json.Marshal(v)
	s := strings.Replace(string(b), `:null`, `:""`, -1)
	s = strings.Replace(s, `:{}`, `:""`, -1)
	return s
}

func canonTrade(t *domain.Trade) string {
	c := *t
	s := canon(c)
	return s + "|" + c.MarketPrice.BasePrice.String() + "|" + c.MarketPrice.QuotePrice.String()
}

func canonMarket(m domain.Market) string {
	return fmt.Sprintf("%d %s %s fee=%d/%d/%d open=%v pluggable=%v type=%d price=%s/%s", m.AccountIndex, m.BaseAsset, m.QuoteAsset,
		m.Fee, m.FixedFee.BaseFee, m.FixedFee.QuoteFee, m.Tradable, m.IsStrategyPluggable(), m.Strategy.Type,
		m.Price.BasePrice.String(), m.Price.QuotePrice.String())
}

// ---- trades ----

func (x *run) tradeIDs() []uuid.UUID {
	r := []uuid.UUID{}
	for id := range x.trades {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (x *run) mutate(t *domain.Trade) {
	g := x.g
	if t.MarketQuoteAsset == "" {
		t.MarketQuoteAsset = x.quotes[g.Intn(len(x.quotes))]
		t.SwapRequest.ID = uuid.New().String()
		t.SwapRequest.Timestamp = g.Log(33)
		t.TraderPubkey = g.Bytes(33)
	}
	codes := []domain.Status{domain.ProposalStatus, domain.ProposalRejectedStatus, domain.AcceptedStatus,
		domain.FailedToCompleteStatus, domain.CompletedStatus, domain.SettledStatus, domain.ExpiredStatus, domain.FailedToSettleStatus}
	t.Status = codes[g.Intn(len(codes))]
	if t.Status.Code >= domain.Accepted && t.SwapAccept.ID == "" {
		t.SwapAccept.ID = uuid.New().String()
		m, _ := proto.Marshal(&pbswap.SwapAccept{Id: t.SwapAccept.ID, RequestId: t.SwapRequest.ID, Transaction: g.Str(30)})
		t.SwapAccept.Message = m
		t.SwapAccept.Timestamp = g.Log(33)
		t.TxID = g.Hex(32)
	}
	switch g.Intn(5) {
	case 0:
		t.PsetBase64 = g.Str(g.Intn(3000))
	case 1:
		t.TxHex = g.Hex(g.Intn(600))
		t.SwapComplete = domain.Swap{ID: uuid.New().String(), Message: g.Bytes(40), Timestamp: g.Log(33)}
	case 2:
		t.SwapFail = domain.Swap{ID: uuid.New().String(), Message: g.Bytes(20)}
	case 3:
		t.ExpiryTime, t.SettlementTime = g.Log(34), g.Log(34)
	case 4:
		t.MarketPrice = domain.Prices{BasePrice: decimal.New(int64(g.Log(50)), -8), QuotePrice: decimal.New(int64(g.Log(40)), -4)}
		t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee = int64(g.Intn(10000)), int64(g.Log(30)), int64(g.Log(40))
	}
}

func (x *run) tradeStep() {
	g := x.g
	repo := x.rm.TradeRepository()
	ids := x.tradeIDs()
	switch c := g.Intn(10); {
	case c < 3 || len(ids) == 0:
		var arg *uuid.UUID
		if g.Bool() {
			id := uuid.New()
			arg = &id
		}
		t, err := repo.GetOrCreateTrade(ctx, arg)
		if err != nil || t == nil {
			x.bad("trade-create", "GetOrCreateTrade: %v %v", t, err)
			return
		}
		x.note("create trade %s", t.ID.String()[:4])
		if arg != nil && t.ID != *arg {
			x.bad("trade-create-id", "GetOrCreateTrade(%s) created %s", *arg, t.ID)
		}
		if _, ok := x.trades[t.ID]; ok {
			x.bad("trade-create-twice", "GetOrCreateTrade(nil) returned the existing trade %s", t.ID)
		}
		if !t.IsEmpty() {
			x.bad("trade-create-status", "a new trade has status %v", t.Status)
		}
		x.trades[t.ID] = *t
	case c < 4:
		id := ids[g.Intn(len(ids))]
		t, err := repo.GetOrCreateTrade(ctx, &id)
		if err != nil || t == nil {
			x.bad("trade-get", "GetOrCreateTrade: %v", err)
			return
		}
		w := x.trades[id]
		if canonTrade(t) != canonTrade(&w) {
			x.bad("trade-differs", "GetOrCreateTrade(%s) returned\n%s\nwritten\n%s", id, canonTrade(t), canonTrade(&w))
		}
		// a snapshot: changes to it are not stored
		t.Status = domain.SettledStatus
		t.TxID = "changed"
		x.r.Count("snapshots-changed", 1)
	case c < 6:
		// an update that fails leaves nothing
		id := ids[g.Intn(len(ids))]
		x.note("failed update of trade %s", id.String()[:4])
		err := repo.UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
			x.mutate(t)
			t.TxHex = "never"
			if g.Bool() {
				return nil, errBoom
			}
			return t, errBoom
		})
		if !errors.Is(err, errBoom) {
			x.bad("trade-update-error", "UpdateTrade hides the error of its function: %v", err)
		}
		x.r.Count("failed-updates", 1)
	default:
		id := ids[g.Intn(len(ids))]
		x.note("update trade %s", id.String()[:4])
		w := x.trades[id]
		var saved domain.Trade
		err := repo.UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
			if canonTrade(t) != canonTrade(&w) {
				x.bad("trade-differs", "UpdateTrade(%s) shows\n%s\nwritten\n%s", id, canonTrade(t), canonTrade(&w))
			}
			x.mutate(t)
			saved = *t
			return t, nil
		})
		if err != nil {
			x.bad("trade-update", "UpdateTrade: %s", err)
			return
		}
		x.trades[id] = saved
		x.r.Count("trade-updates", 1)
	}
}

func idSet(ts []*domain.Trade) string {
	s := []string{}
	for _, t := range ts {
		s = append(s, t.ID.String()[:8])
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (x *run) tradeQueries() {
	repo := x.rm.TradeRepository()
	sel := func(f func(t domain.Trade) bool) string {
		l := []*domain.Trade{}
		for _, t := range x.trades {
			t := t
			if f(t) {
				l = append(l, &t)
			}
		}
		return idSet(l)
	}
	same := func(what string, ts []*domain.Trade, err error, want string) {
		if err != nil || idSet(ts) != want {
			x.bad("trades:"+what, "%s: {%s} (%v), written {%s}", what, idSet(ts), err, want)
			return
		}
		for _, t := range ts {
			w := x.trades[t.ID]
			if canonTrade(t) != canonTrade(&w) {
				x.bad("trade-differs", "%s returned\n%s\nwritten\n%s", what, canonTrade(t), canonTrade(&w))
			}
			t.Status.Code = 77 // snapshot
			t.MarketQuoteAsset = "changed"
		}
	}
	ts, err := repo.GetAllTrades(ctx)
	same("GetAllTrades", ts, err, sel(func(domain.Trade) bool { return true }))
	for _, q := range x.quotes {
		ts, err = repo.GetAllTradesByMarket(ctx, q)
		same("GetAllTradesByMarket", ts, err, sel(func(t domain.Trade) bool { return t.MarketQuoteAsset == q }))
		ts, err = repo.GetCompletedTradesByMarket(ctx, q)
		same("GetCompletedTradesByMarket", ts, err, sel(func(t domain.Trade) bool {
			return t.MarketQuoteAsset == q && (t.Status.Code == domain.Completed || t.Status.Code == domain.Settled) && !t.Status.Failed
		}))
	}
	for _, id := range x.tradeIDs() {
		w := x.trades[id]
		if w.SwapAccept.ID == "" || x.g.Intn(3) > 0 {
			continue
		}
		t, err := repo.GetTradeBySwapAcceptID(ctx, w.SwapAccept.ID)
		if err != nil || t == nil || t.ID != id || canonTrade(t) != canonTrade(&w) {
			x.bad("trade-by-accept", "GetTradeBySwapAcceptID(%s): %v %v, written %s", w.SwapAccept.ID, t, err, canonTrade(&w))
		}
		t, err = repo.GetTradeByTxID(ctx, w.TxID)
		if err != nil || t == nil || t.ID != id || canonTrade(t) != canonTrade(&w) {
			x.bad("trade-by-txid", "GetTradeByTxID(%s): %v %v", w.TxID, t, err)
		}
		x.r.Count("lookups", 2)
	}
	if t, err := repo.GetTradeBySwapAcceptID(ctx, uuid.New().String()); t != nil {
		x.bad("trade-by-accept", "an unknown accept id finds trade %s (%v)", t.ID, err)
	}
	if t, _ := repo.GetTradeByTxID(ctx, x.g.Hex(32)); t != nil {
		x.bad("trade-by-txid", "an unknown transaction id finds trade %s", t.ID)
	}
}

// ---- markets ----

func (x *run) accounts() []int {
	r := []int{}
	for a := range x.markets {
		r = append(r, a)
	}
	sort.Ints(r)
	return r
}

func (x *run) byQuote(q string) (domain.Market, bool) {
	for _, m := range x.markets {
		if m.QuoteAsset == q {
			return m, true
		}
	}
	return domain.Market{}, false
}

func (x *run) marketStep() {
	g := x.g
	repo := x.rm.MarketRepository()
	accs := x.accounts()
	switch c := g.Intn(20); {
	case c < 4 || len(accs) == 0:
		acc := domain.MarketAccountStart + g.Intn(6)
		fee := int64(g.Intn(10000))
		m, err := repo.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: acc, Fee: fee})
		x.note("create market %d fee %d", acc, fee)
		if err != nil || m == nil {
			x.bad("market-create", "GetOrCreateMarket: %v", err)
			return
		}
		w, ok := x.markets[acc]
		if !ok {
			w = domain.Market{AccountIndex: acc, Fee: fee, Strategy: mm.NewStrategyFromFormula(formula.BalancedReserves{})}
			x.markets[acc] = w
		}
		if canonMarket(*m) != canonMarket(w) {
			x.bad("market-differs", "GetOrCreateMarket returned %s, written %s", canonMarket(*m), canonMarket(w))
		}
		m.Fee, m.Tradable, m.QuoteAsset = 1, true, "changed"
	case c < 5:
		if _, err := repo.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: -1}); err == nil {
			x.bad("market-create", "a market with account -1 is created")
		}
		if _, err := repo.GetOrCreateMarket(ctx, nil); err == nil {
			x.bad("market-create", "a nil market is created")
		}
	case c < 8:
		acc := accs[g.Intn(len(accs))]
		x.note("failed update of market %d", acc)
		err := repo.UpdateMarket(ctx, acc, func(m *domain.Market) (*domain.Market, error) {
			m.Fee = 9998
			m.QuoteAsset = "never"
			m.Tradable = !m.Tradable
			return m, errBoom
		})
		if !errors.Is(err, errBoom) {
			x.bad("market-update-error", "UpdateMarket hides the error of its function: %v", err)
		}
		x.r.Count("failed-updates", 1)
		if err := repo.UpdateMarket(ctx, 4000+g.Intn(9), func(m *domain.Market) (*domain.Market, error) { return m, nil }); err == nil {
			x.bad("market-update-unknown", "updating a market that does not exist succeeds")
		}
	case c < 13:
		acc := accs[g.Intn(len(accs))]
		w := x.markets[acc]
		x.note("update market %d", acc)
		err := repo.UpdateMarket(ctx, acc, func(m *domain.Market) (*domain.Market, error) {
			if canonMarket(*m) != canonMarket(w) {
				x.bad("market-differs", "UpdateMarket shows %s, written %s", canonMarket(*m), canonMarket(w))
			}
			if m.QuoteAsset == "" {
				for _, q := range x.quotes {
					if _, used := x.byQuote(q); !used && !x.deleted[q] {
						m.BaseAsset, m.QuoteAsset = sim.LBTC, q
						break
					}
				}
			}
			m.Fee = int64(g.Intn(10000))
			m.FixedFee = domain.FixedFee{BaseFee: int64(g.Log(30)), QuoteFee: int64(g.Log(30))}
			if g.Chance(3) {
				m.Strategy = mm.NewStrategyFromFormula(domain.PluggableStrategy{})
			} else if g.Chance(2) {
				m.Strategy = mm.NewStrategyFromFormula(formula.BalancedReserves{})
			}
			w = *m
			return m, nil
		})
		if err != nil {
			x.bad("market-update", "UpdateMarket: %s", err)
			return
		}
		x.markets[acc] = w
		x.r.Count("market-updates", 1)
	case c < 15:
		acc := accs[g.Intn(len(accs))]
		w := x.markets[acc]
		if w.QuoteAsset == "" {
			return
		}
		p := domain.Prices{BasePrice: decimal.New(int64(1+g.Log(40)), -8), QuotePrice: decimal.New(int64(1+g.Log(45)), -3)}
		x.note("price market %d", acc)
		if err := repo.UpdatePrices(ctx, acc, p); err != nil {
			x.bad("market-price", "UpdatePrices: %s", err)
			return
		}
		w.Price = p
		x.markets[acc] = w
		x.r.Count("price-updates", 1)
	case c < 19:
		q := x.quotes[g.Intn(len(x.quotes))]
		w, ok := x.byQuote(q)
		open := g.Bool()
		x.note("open=%v market of %s", open, q[:4])
		var err error
		if open {
			err = repo.OpenMarket(ctx, q)
		} else {
			err = repo.CloseMarket(ctx, q)
		}
		if !ok {
			return // unknown markets: an error or nothing, checked by the queries
		}
		can := true
		if open && !w.Tradable && w.IsStrategyPluggable() && w.Price.BasePrice.IsZero() && w.Price.QuotePrice.IsZero() {
			can = false
		}
		if can != (err == nil) {
			x.bad("market-open", "open=%v of %s: %v", open, canonMarket(w), err)
		}
		if can {
			w.Tradable = open
			x.markets[w.AccountIndex] = w
			x.r.Count("open-close", 1)
		}
	default:
		acc := accs[g.Intn(len(accs))]
		x.note("delete market %d", acc)
		if err := repo.DeleteMarket(ctx, acc); err != nil {
			x.bad("market-delete", "DeleteMarket: %s", err)
		}
		delete(x.markets, acc)
		x.r.Count("market-deletes", 1)
	}
}

func (x *run) marketQueries() {
	repo := x.rm.MarketRepository()
	join := func(ms []domain.Market) string {
		s := []string{}
		for _, m := range ms {
			s = append(s, canonMarket(m))
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	all, open := []domain.Market{}, []domain.Market{}
	last := domain.MarketAccountStart - 1
	for a, m := range x.markets {
		all = append(all, m)
		if m.Tradable {
			open = append(open, m)
		}
		if a > last {
			last = a
		}
	}
	ms, err := repo.GetAllMarkets(ctx)
	if err != nil || join(ms) != join(all) {
		x.bad("markets", "GetAllMarkets: %v\n%s\nwritten\n%s", err, join(ms), join(all))
	}
	ms, err = repo.GetTradableMarkets(ctx)
	if err != nil || join(ms) != join(open) {
		x.bad("tradable-markets", "GetTradableMarkets: %v\n%s\nwritten\n%s", err, join(ms), join(open))
	}
	m, acc, err := repo.GetLatestMarket(ctx)
	if err != nil || acc != last || (m == nil) != (len(all) == 0) || m != nil && canonMarket(*m) != canonMarket(x.markets[last]) {
		x.bad("latest-market", "GetLatestMarket: %v %d %v, written %d", m, acc, err, last)
	}
	for i := 0; i < 8; i++ {
		a := domain.MarketAccountStart + i
		w, ok := x.markets[a]
		m, err := repo.GetMarketByAccount(ctx, a)
		if ok != (m != nil) || ok && (err != nil || canonMarket(*m) != canonMarket(w)) {
			x.bad("market-by-account", "GetMarketByAccount(%d): %v %v, written %v", a, m, err, ok)
		}
		if m != nil {
			if m.Tradable && !m.IsStrategyPluggable() {
				x.r.GuardV("preview", "preview of a stored market", func() { m.Preview(1e9, 1e9, 1e6, true, true) })
			}
			m.Fee++
			m.Tradable = !m.Tradable // snapshot
		}
	}
	for _, q := range x.quotes {
		w, ok := x.byQuote(q)
		m, acc, err := repo.GetMarketByAsset(ctx, q)
		if ok != (m != nil) || ok && (err != nil || acc != w.AccountIndex || canonMarket(*m) != canonMarket(w)) {
			x.bad("market-by-asset", "GetMarketByAsset(%s): %v %d %v, written %v", q[:6], m, acc, err, ok)
		}
	}
}

// ---- vault ----

func (x *run) vaultStep() {
	g := x.g
	repo := x.rm.VaultRepository()
	acc := []int{0, 1, 5, 6, 7}[g.Intn(5)]
	switch c := g.Intn(6); {
	case c == 0:
		v, err := repo.GetOrCreateVault(ctx, sim.Words, sim.Pass, sim.Net)
		if err != nil || v == nil {
			x.bad("vault-create", "GetOrCreateVault: %v", err)
			return
		}
		if x.vault == nil {
			c := *v
			x.vault = &c
			x.note("create vault")
		}
		x.cmpVault("GetOrCreateVault", v)
		// snapshot
		v.EncryptedMnemonic = "changed"
		v.PassphraseHash = []byte("x")
		for _, a := range v.Accounts {
			a.LastExternalIndex += 3
			a.DerivationPathByScript["00"] = "changed"
		}
		if v.Accounts != nil {
			v.Accounts[99] = &domain.Account{AccountIndex: 99}
		}
	case x.vault == nil:
		if err := repo.UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) { return v, nil }); err == nil {
			x.bad("vault-none", "UpdateVault without a vault succeeds")
		}
		for _, f := range []func() error{
			func() error { _, e := repo.GetAccountByIndex(ctx, 0); return e },
			func() error { _, _, e := repo.GetAccountByAddress(ctx, "x"); return e },
			func() error { _, e := repo.GetAllDerivedAddressesInfoForAccount(ctx, 0); return e },
			func() error { _, e := repo.GetAllDerivedExternalAddressesInfoForAccount(ctx, 0); return e },
			func() error { _, e := repo.GetDerivationPathByScript(ctx, 0, []string{"00"}); return e },
		} {
			f := f
			x.r.GuardV("vault-none", x.backend, func() {
				if f() == nil {
					x.bad("vault-none", "a vault query without a vault succeeds")
				}
			})
		}
	case c == 1:
		x.note("failed update of vault")
		err := repo.UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
			v.InitAccount(acc)
			v.DeriveNextExternalAddressForAccount(acc)
			v.EncryptedMnemonic = "never"
			return v, errBoom
		})
		if !errors.Is(err, errBoom) {
			x.bad("vault-update-error", "UpdateVault hides the error of its function: %v", err)
		}
		x.r.Count("failed-updates", 1)
	default:
		var info *domain.AddressInfo
		ext := g.Chance(2)
		x.note("derive account %d ext=%v", acc, ext)
		err := repo.UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
			v.InitAccount(acc)
			var err error
			if ext {
				info, err = v.DeriveNextExternalAddressForAccount(acc)
			} else {
				info, err = v.DeriveNextInternalAddressForAccount(acc)
			}
			return v, err
		})
		if err != nil || info == nil {
			x.bad("vault-update", "UpdateVault: %v", err)
			return
		}
		n := 0
		for _, a := range x.addrs[acc] {
			if x.ext[a.Address] == ext {
				n++
			}
		}
		chain := 1
		if ext {
			chain = 0
		}
		if want := fmt.Sprintf("%d'/%d/%d", acc, chain, n); info.DerivationPath != want {
			x.bad("vault-index", "address at %s, expected %s", info.DerivationPath, want)
		}
		x.addrs[acc] = append(x.addrs[acc], *info)
		x.ext[info.Address] = ext
		x.r.Count("vault-updates", 1)
	}
}

func (x *run) cmpVault(what string, v *domain.Vault) {
	if v.EncryptedMnemonic != x.vault.EncryptedMnemonic || hex.EncodeToString(v.PassphraseHash) != hex.EncodeToString(x.vault.PassphraseHash) {
		x.bad("vault-differs", "%s: another seal or passphrase", what)
	}
	if v.Network == nil || v.Network.Name != sim.Net.Name || v.Network.AssetID != sim.Net.AssetID {
		x.bad("vault-differs", "%s: another network", what)
	}
	if len(v.Accounts) != len(x.addrs) {
		x.bad("vault-differs", "%s: %d accounts, written %d", what, len(v.Accounts), len(x.addrs))
	}
	n := 0
	for acc, l := range x.addrs {
		n += len(l)
		a := v.Accounts[acc]
		if a == nil {
			x.bad("vault-differs", "%s: account %d missing", what, acc)
			continue
		}
		e := 0
		for _, i := range l {
			if x.ext[i.Address] {
				e++
			}
			k, ok := v.AccountAndKeyByAddress[i.Address]
			if !ok || k.AccountIndex != acc || hex.EncodeToString(k.BlindingKey) != hex.EncodeToString(i.BlindingKey) || a.DerivationPathByScript[i.Script] != i.DerivationPath {
				x.bad("vault-differs", "%s: address %s not as written", what, i.Address)
			}
		}
		if a.LastExternalIndex != e || a.LastInternalIndex != len(l)-e || len(a.DerivationPathByScript) != len(l) {
			x.bad("vault-differs", "%s: account %d at %d/%d with %d paths, written %d/%d", what, acc, a.LastExternalIndex, a.LastInternalIndex, len(a.DerivationPathByScript), e, len(l)-e)
		}
	}
	if len(v.AccountAndKeyByAddress) != n {
		x.bad("vault-differs", "%s: %d addresses, written %d", what, len(v.AccountAndKeyByAddress), n)
	}
}

func infoSet(l []domain.AddressInfo) string {
	s := []string{}
	for _, i := range l {
		s = append(s, fmt.Sprintf("%d %s %s %s %s", i.AccountIndex, i.Address, hex.EncodeToString(i.BlindingKey), i.DerivationPath, i.Script))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func (x *run) vaultQueries() {
	if x.vault == nil {
		return
	}
	repo := x.rm.VaultRepository()
	for _, acc := range []int{0, 1, 5, 6, 7} {
		l, ok := x.addrs[acc]
		a, err := repo.GetAccountByIndex(ctx, acc)
		if ok != (err == nil && a != nil) {
			x.bad("account-by-index", "GetAccountByIndex(%d): %v %v, written %v", acc, a, err, ok)
			continue
		}
		if !ok {
			continue
		}
		a.LastExternalIndex += 5 // snapshot
		a.DerivationPathByScript["zz"] = "changed"
		got, err := repo.GetAllDerivedAddressesInfoForAccount(ctx, acc)
		if err != nil || infoSet(got) != infoSet(l) {
			x.bad("derived-addresses", "account %d: %v\n%s\nwritten\n%s", acc, err, infoSet(got), infoSet(l))
		}
		ext := []domain.AddressInfo{}
		for _, i := range l {
			if x.ext[i.Address] {
				ext = append(ext, i)
			}
		}
		got, err = repo.GetAllDerivedExternalAddressesInfoForAccount(ctx, acc)
		if err != nil || infoSet(got) != infoSet(ext) {
			x.bad("derived-external-addresses", "account %d: %v\n%s\nwritten\n%s", acc, err, infoSet(got), infoSet(ext))
		}
		if len(l) > 0 {
			i := l[x.g.Intn(len(l))]
			a, idx, err := repo.GetAccountByAddress(ctx, i.Address)
			if err != nil || idx != acc || a == nil || a.AccountIndex != acc {
				x.bad("account-by-address", "GetAccountByAddress: %v %d %v, written %d", a, idx, err, acc)
			}
			p, err := repo.GetDerivationPathByScript(ctx, acc, []string{i.Script, l[0].Script})
			if err != nil || p[i.Script] != i.DerivationPath || p[l[0].Script] != l[0].DerivationPath {
				x.bad("path-by-script", "GetDerivationPathByScript: %v %v, written %s", p, err, i.DerivationPath)
			}
			if _, err := repo.GetDerivationPathByScript(ctx, acc, []string{i.Script, "0014" + x.g.Hex(20)}); err == nil {
				x.bad("path-by-script", "an unknown script has a derivation path")
			}
		}
	}
	if _, _, err := repo.GetAccountByAddress(ctx, "unknown"); err == nil {
		x.bad("account-by-address", "an unknown address has an account")
	}
	v, err := repo.GetOrCreateVault(ctx, nil, "", nil)
	if err != nil || v == nil {
		x.bad("vault-get", "GetOrCreateVault: %v", err)
		return
	}
	x.cmpVault("GetOrCreateVault", v)
}

func history(r *sim.Rec, backend string, n, steps int) {
	g := r.Rng(fmt.Sprintf("%s-%d", backend, n))
	x := &run{r: r, g: g, backend: backend, rm: sim.OpenRepo(r, backend, n),
		trades: map[uuid.UUID]domain.Trade{}, markets: map[int]domain.Market{}, deleted: map[string]bool{},
		addrs: map[int][]domain.AddressInfo{}, ext: map[string]bool{}}
	for i := 0; i < 4; i++ {
		x.quotes = append(x.quotes, g.Hex(32))
	}
	domain.MnemonicStoreManager.Set(strings.Join(sim.Words, " "))
	r.GuardV("history", backend, func() {
		for s := 0; s < steps; s++ {
			switch c := g.Intn(10); {
			case c < 4:
				x.tradeStep()
			case c < 8:
				x.marketStep()
			default:
				x.vaultStep()
			}
			r.Count("operations", 1)
			if s%5 == 4 {
				x.tradeQueries()
				x.marketQueries()
				if g.Chance(3) {
					x.vaultQueries()
				}
				st := []string{}
				for _, t := range x.trades {
					st = append(st, fmt.Sprint(t.Status))
				}
				sort.Strings(st)
				ms := []string{}
				for a, m := range x.markets {
					ms = append(ms, fmt.Sprint(a, m.Tradable, m.IsStrategyPluggable(), m.QuoteAsset != ""))
				}
				sort.Strings(ms)
				r.Eval(fmt.Sprint(backend, st, ms, len(x.addrs)))
			}
			if backend == "badger-disk" && g.Chance(40) {
				x.note("restart")
				x.rm.Close()
				x.rm = sim.OpenRepo(r, backend, n)
				r.Count("restarts", 1)
			}
		}
		x.tradeQueries()
		x.marketQueries()
		x.vaultQueries()
	})
	x.rm.Close()
	if n == 0 {
		l := x.log
		if len(l) > 40 {
			l = l[:40]
		}
		r.Sample(backend + ": " + strings.Join(l, "; "))
	}
}

func main() {
	r := sim.Start("random histories over trades, markets, prices and vault with failing updates, changed snapshots, deletes and (on disk) restarts; every lookup compared with the model every fifth step; distinct: back end, statuses of trades and markets, accounts")
	sim.UseFastEncrypter()
	domain.MnemonicStoreManager = &sim.MemStore{}
	for i := 0; i < r.N(24, 400); i++ {
		history(r, "inmemory", i, 100)
		history(r, "badger-mem", i, 100)
		if i%4 == 0 {
			history(r, "badger-disk", i, 100)
		}
	}
	r.NeedAtLeast("trade-updates", 300)
	r.NeedAtLeast("market-updates", 200)
	r.NeedAtLeast("vault-updates", 100)
	r.NeedAtLeast("failed-updates", 100)
	r.NeedAtLeast("restarts", 5)
	r.Assume("prices are changed only through UpdatePrices, as the services do")
	r.Finish()
}
