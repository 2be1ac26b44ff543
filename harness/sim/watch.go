package sim

import (
	"bytes"
	"context"
	"fmt"
	"reflect"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
)

// WatchRepo is a repository manager that reports every trade update that was
// stored.
type WatchRepo struct {
	ports.RepoManager
	On func(before, after domain.Trade, inTx bool)
}

func (w WatchRepo) TradeRepository() domain.TradeRepository {
	return watchTrades{w.RepoManager.TradeRepository(), w.On}
}

type watchTrades struct {
	domain.TradeRepository
	on func(before, after domain.Trade, inTx bool)
}

func (w watchTrades) UpdateTrade(ctx context.Context, id *uuid.UUID, fn func(*domain.Trade) (*domain.Trade, error)) error {
	var before, after domain.Trade
	err := w.TradeRepository.UpdateTrade(ctx, id, func(t *domain.Trade) (*domain.Trade, error) {
		before = *t
		r, err := fn(t)
		if r != nil {
			after = *r
		}
		return r, err
	})
	if err == nil {
		w.on(before, after, ctx.Value("tx") != nil)
	}
	return err
}

// St names a trade status.
func St(s domain.Status) string {
	n, ok := map[int]string{-1: "empty", 1: "proposal", 2: "accepted", 3: "completed", 4: "settled", 5: "expired"}[s.Code]
	if !ok {
		n = fmt.Sprint(s.Code)
	}
	if s.Failed && s.Code != domain.Expired {
		n += "-failed"
	}
	return n
}

// SwapEq compares two swap records.
func SwapEq(a, b domain.Swap) bool {
	return a.ID == b.ID && a.Timestamp == b.Timestamp && bytes.Equal(a.Message, b.Message)
}

// Kept names the facts of a trade that a later state lost or replaced.
func Kept(a, b domain.Trade) (lost []string) {
	if a.ID != b.ID {
		lost = append(lost, "ID")
	}
	sw := func(n string, x, y domain.Swap) {
		if !x.IsZero() && !SwapEq(x, y) {
			lost = append(lost, n)
		}
	}
	sw("SwapRequest", a.SwapRequest, b.SwapRequest)
	sw("SwapAccept", a.SwapAccept, b.SwapAccept)
	sw("SwapComplete", a.SwapComplete, b.SwapComplete)
	sw("SwapFail", a.SwapFail, b.SwapFail)
	if a.TxID != "" && a.TxID != b.TxID {
		lost = append(lost, "TxID")
	}
	if a.TxHex != "" && b.TxHex == "" {
		lost = append(lost, "TxHex")
	}
	if a.PsetBase64 != "" && b.PsetBase64 == "" {
		lost = append(lost, "PsetBase64")
	}
	if a.SettlementTime != 0 && a.SettlementTime != b.SettlementTime {
		lost = append(lost, "SettlementTime")
	}
	if a.Status.Code >= domain.Proposal {
		if a.MarketQuoteAsset != b.MarketQuoteAsset || !a.MarketPrice.BasePrice.Equal(b.MarketPrice.BasePrice) ||
			!a.MarketPrice.QuotePrice.Equal(b.MarketPrice.QuotePrice) || a.MarketFee != b.MarketFee ||
			a.MarketFixedBaseFee != b.MarketFixedBaseFee || a.MarketFixedQuoteFee != b.MarketFixedQuoteFee {
			lost = append(lost, "market terms")
		}
	}
	if a.Status.Code >= domain.Accepted && b.Status.Code != domain.Settled && a.ExpiryTime != b.ExpiryTime {
		lost = append(lost, "ExpiryTime")
	}
	return lost
}

// SameTrade compares two trades entirely.
func SameTrade(a, b domain.Trade) bool {
	if len(Kept(a, b)) > 0 || len(Kept(b, a)) > 0 {
		return false
	}
	return a.Status == b.Status && a.PsetBase64 == b.PsetBase64 && a.TxHex == b.TxHex &&
		a.ExpiryTime == b.ExpiryTime && a.SettlementTime == b.SettlementTime &&
		reflect.DeepEqual(append([]byte{}, a.TraderPubkey...), append([]byte{}, b.TraderPubkey...))
}
