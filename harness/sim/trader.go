package sim

import (
	"encoding/hex"
	"errors"
	"fmt"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
)

// Trader is a counterparty with one key and some coins.
type Trader struct {
	W     *trade.Wallet
	Chain *Chain
}

// NewTrader makes a trader holding the given coins.
func NewTrader(c *Chain, pays ...Pay) (*Trader, error) {
	w, err := trade.NewRandomWallet(Net)
	if err != nil {
		return nil, err
	}
	t := &Trader{W: w, Chain: c}
	for _, p := range pays {
		if _, err := c.Fund(true, Pay{w.Address(), p.Asset, p.Value}); err != nil {
			return nil, err
		}
	}
	return t, nil
}

// Coins lists the trader's unspent coins, revealed.
func (t *Trader) Coins() ([]explorer.Utxo, error) {
	return t.Chain.unspents(t.W.Address(), [][]byte{t.W.BlindingKey()})
}

// ScriptHex is the trader's output script.
func (t *Trader) ScriptHex() string {
	_, s := t.W.Script()
	return hex.EncodeToString(s)
}

// ScriptBytes is the trader's output script.
func (t *Trader) ScriptBytes() []byte { _, s := t.W.Script(); return s }

// Request builds a swap request paying p of assetP for r of assetR.
func (t *Trader) Request(id, assetP string, p uint64, assetR string, r uint64) (*pbswap.SwapRequest, error) {
	coins, err := t.Coins()
	if err != nil {
		return nil, err
	}
	_, scr := t.W.Script()
	ptx, err := trade.NewSwapTx(coins, assetP, p, assetR, r, scr)
	if err != nil {
		return nil, err
	}
	k := hex.EncodeToString(scr)
	return &pbswap.SwapRequest{
		Id: id, AssetP: assetP, AmountP: p, AssetR: assetR, AmountR: r, Transaction: ptx,
		InputBlindingKey:  map[string][]byte{k: t.W.BlindingKey()},
		OutputBlindingKey: map[string][]byte{k: t.W.BlindingKey()},
	}, nil
}

// Complete signs an accepted transaction.
func (t *Trader) Complete(id string, acc domain.SwapAccept) (*pbswap.SwapComplete, error) {
	s, err := t.W.Sign(acc.GetTransaction())
	if err != nil {
		return nil, err
	}
	return &pbswap.SwapComplete{Id: id, AcceptId: acc.GetId(), Transaction: s}, nil
}

// Finalize extracts the raw transaction of a fully signed PSET.
func Finalize(ptx string) (hexTx, txid string, err error) {
	return wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: ptx})
}

// PsetInputs lists the outpoints a PSET spends.
func PsetInputs(b64 string) ([]Outpoint, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return nil, err
	}
	r := make([]Outpoint, 0, len(p.UnsignedTx.Inputs))
	for _, in := range p.UnsignedTx.Inputs {
		r = append(r, Outpoint{InHash(in), in.Index})
	}
	return r, nil
}

// Quote previews the counter amount of a trade.
type Quote struct{ P, R uint64 }

// Amounts of a trade of `base` units of the base asset at the daemon's price.
func AmountsFor(d *Daemon, mk application.Market, tradeType int, base uint64) (assetP string, p uint64, assetR string, r uint64, err error) {
	pv, err := d.Trade.GetMarketPrice(nilCtx, mk, tradeType, base, mk.BaseAsset)
	if err != nil {
		return "", 0, "", 0, err
	}
	if pv.Asset != mk.QuoteAsset {
		return "", 0, "", 0, fmt.Errorf("preview in asset %s", pv.Asset)
	}
	if tradeType == application.TradeBuy {
		return mk.QuoteAsset, pv.Amount, mk.BaseAsset, base, nil
	}
	return mk.BaseAsset, base, mk.QuoteAsset, pv.Amount, nil
}

// Proposal is an answered proposal.
type Proposal struct {
	Trader *Trader
	Type   int
	Req    *pbswap.SwapRequest
	Acc    domain.SwapAccept
	Fail   domain.SwapFail
	Expiry uint64
}

// ErrNoPrice tells that no price could be obtained (busy or poor market).
var ErrNoPrice = errors.New("no price")

// Propose makes a new trader trade `base` units at the daemon's price.
func (d *Daemon) Propose(mk application.Market, tradeType int, base uint64, id string) (*Proposal, error) {
	aP, p, aR, r, err := AmountsFor(d, mk, tradeType, base)
	if err != nil {
		return nil, fmt.Errorf("%w: %s", ErrNoPrice, err)
	}
	if p == 0 || r == 0 {
		return nil, ErrNoPrice
	}
	t, err := NewTrader(d.Chain, Pay{"", aP, p + 5000})
	if err != nil {
		return nil, err
	}
	req, err := t.Request(id, aP, p, aR, r)
	if err != nil {
		return nil, err
	}
	acc, fail, exp, err := d.Trade.TradePropose(nilCtx, mk, tradeType, req)
	return &Proposal{t, tradeType, req, acc, fail, exp}, err
}
