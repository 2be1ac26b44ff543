package sim

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

// The fast seams replace the expensive cryptography of a swap (building,
// blinding, signing, proofs) behind the interfaces the repository provides for
// it, so that many schedules can be run: transactions are explicit and carry
// no signatures. What is selected, locked, recorded and broadcast is up to the
// real services.

// FastParser makes and reads swap messages without validating transactions. A
// completion is well formed when its transaction is "signed:" + the accepted one.
type FastParser struct {
	// Refuse, if set, may fail a serialization ("request", "accept", "complete").
	Refuse func(kind string) bool
	// Slow, if set, is called while a message is made.
	Slow func(kind string)
}

const fastMark = "signed:"

// FastSigned turns the accepted transaction in its fully signed version.
func FastSigned(acceptedTx string) string { return fastMark + acceptedTx }

func (p FastParser) in(kind string, code int) *domain.SwapError {
	if p.Slow != nil {
		p.Slow(kind)
	}
	if p.Refuse != nil && p.Refuse(kind) {
		return &domain.SwapError{Err: errors.New("refused " + kind), Code: code}
	}
	return nil
}

func mar(m proto.Message) []byte { b, _ := proto.Marshal(m); return b }

func (p FastParser) SerializeRequest(r domain.SwapRequest) ([]byte, *domain.SwapError) {
	if e := p.in("request", 1); e != nil {
		return nil, e
	}
	return mar(&pbswap.SwapRequest{Id: r.GetId(), AssetP: r.GetAssetP(), AmountP: r.GetAmountP(),
		AssetR: r.GetAssetR(), AmountR: r.GetAmountR(), Transaction: r.GetTransaction()}), nil
}

func (p FastParser) SerializeAccept(a domain.AcceptArgs) (string, []byte, *domain.SwapError) {
	if e := p.in("accept", 2); e != nil {
		return "", nil, e
	}
	var rq pbswap.SwapRequest
	if err := proto.Unmarshal(a.RequestMessage, &rq); err != nil {
		return "", nil, &domain.SwapError{Err: err, Code: 2}
	}
	id := uuid.New().String()
	return id, mar(&pbswap.SwapAccept{Id: id, RequestId: rq.Id, Transaction: a.Transaction}), nil
}

func (p FastParser) SerializeComplete(msg []byte, tx string) (string, []byte, *domain.SwapError) {
	if e := p.in("complete", 3); e != nil {
		return "", nil, e
	}
	var ac pbswap.SwapAccept
	if err := proto.Unmarshal(msg, &ac); err != nil {
		return "", nil, &domain.SwapError{Err: err, Code: 3}
	}
	if tx != fastMark+ac.Transaction {
		return "", nil, &domain.SwapError{Err: errors.New("not the accepted transaction, signed"), Code: 3}
	}
	id := uuid.New().String()
	return id, mar(&pbswap.SwapComplete{Id: id, AcceptId: ac.Id, Transaction: tx}), nil
}

func (p FastParser) SerializeFail(id string, code int, msg string) (string, []byte) {
	n := uuid.New().String()
	return n, mar(&pbswap.SwapFail{Id: n, MessageId: id, FailureCode: uint32(code), FailureMessage: msg})
}

func (FastParser) DeserializeRequest(b []byte) (domain.SwapRequest, error) {
	m := &pbswap.SwapRequest{}
	return m, proto.Unmarshal(b, m)
}
func (FastParser) DeserializeAccept(b []byte) (domain.SwapAccept, error) {
	m := &pbswap.SwapAccept{}
	return m, proto.Unmarshal(b, m)
}
func (FastParser) DeserializeComplete(b []byte) (domain.SwapComplete, error) {
	m := &pbswap.SwapComplete{}
	return m, proto.Unmarshal(b, m)
}
func (FastParser) DeserializeFail(b []byte) (domain.SwapFail, error) {
	m := &pbswap.SwapFail{}
	return m, proto.Unmarshal(b, m)
}

// FastPset reads ids and hex of the transactions of the fast seams.
type FastPset struct{}

func (FastPset) GetTxID(b64 string) (string, error) {
	p, err := pset.NewPsetFromBase64(strings.TrimPrefix(b64, fastMark))
	if err != nil {
		return "", err
	}
	return p.UnsignedTx.TxHash().String(), nil
}

func (FastPset) GetTxHex(b64 string) (string, error) {
	p, err := pset.NewPsetFromBase64(strings.TrimPrefix(b64, fastMark))
	if err != nil {
		return "", err
	}
	return p.UnsignedTx.ToHex()
}

// FastFiller fills a proposal with an explicit transaction: the counterparty's
// inputs, market coins for what it receives, fee coins for the network fee.
type FastFiller struct {
	Fee uint64
	// Slow, if set, is called between selecting coins and returning.
	Slow func()
	// Refuse makes some proposals fail.
	Refuse func() bool
}

func (f FastFiller) FillProposal(o application.FillProposalOpts) (*application.FillProposalResult, error) {
	if f.Refuse != nil && f.Refuse() {
		return nil, errors.New("refused")
	}
	base, err := pset.NewPsetFromBase64(o.SwapRequest.GetTransaction())
	if err != nil {
		return nil, err
	}
	sel, change, err := explorer.SelectUnspents(o.MarketUtxos, o.SwapRequest.GetAmountR(), o.SwapRequest.GetAssetR())
	if err != nil {
		return nil, err
	}
	fee := f.Fee
	if fee == 0 {
		fee = 300
	}
	fsel, fchange, err := explorer.SelectUnspents(o.FeeUtxos, fee, LBTC)
	if err != nil {
		return nil, err
	}
	if f.Slow != nil {
		f.Slow()
	}
	ins := base.UnsignedTx.Inputs
	outs := base.UnsignedTx.Outputs
	for _, u := range append(append([]explorer.Utxo{}, sel...), fsel...) {
		h, err := hashBytes(u.Hash())
		if err != nil {
			return nil, err
		}
		ins = append(ins, transaction.NewTxInput(h, u.Index()))
	}
	add := func(asset string, v uint64, script string) {
		b, _ := hex.DecodeString(script)
		outs = append(outs, ExplicitOut(asset, v, b))
	}
	add(o.SwapRequest.GetAssetP(), o.SwapRequest.GetAmountP(), o.OutputInfo.Script)
	if change > 0 {
		add(o.SwapRequest.GetAssetR(), change, o.ChangeInfo.Script)
	}
	if fchange > 0 {
		add(LBTC, fchange, o.FeeChangeInfo.Script)
	}
	add(LBTC, fee, "")
	p, err := pset.New(ins, outs, 2, 0)
	if err != nil {
		return nil, err
	}
	b64, err := p.ToBase64()
	if err != nil {
		return nil, err
	}
	return &application.FillProposalResult{
		PsetBase64: b64, SelectedUnspents: append(append([]explorer.Utxo{}, sel...), fsel...),
		InputBlindingKeys: map[string][]byte{}, OutputBlindingKeys: map[string][]byte{},
	}, nil
}

func hashBytes(txid string) ([]byte, error) {
	b, err := hex.DecodeString(txid)
	if err != nil || len(b) != 32 {
		return nil, fmt.Errorf("bad txid %s", txid)
	}
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b, nil
}

// FastTxs extracts the wallet's coins of an explicit, unsigned transaction.
type FastTxs struct{ Owner func(op Outpoint) bool }

func (f FastTxs) ExtractUnspents(hx string, info map[string]domain.AddressInfo, _ *network.Network) ([]domain.Unspent, []domain.UnspentKey, error) {
	tx, err := transaction.NewTxFromHex(hx)
	if err != nil {
		return nil, nil, err
	}
	var add []domain.Unspent
	var spent []domain.UnspentKey
	for _, in := range tx.Inputs {
		spent = append(spent, domain.UnspentKey{TxID: InHash(in), VOut: in.Index})
	}
	for i, out := range tx.Outputs {
		in, ok := info[hex.EncodeToString(out.Script)]
		if !ok {
			continue
		}
		o, ok := OpenOut(out, in.BlindingKey)
		if !ok {
			continue
		}
		add = append(add, domain.Unspent{
			TxID: tx.TxHash().String(), VOut: uint32(i), Value: o.Value, AssetHash: o.Asset,
			Address: in.Address, ScriptPubKey: out.Script, RangeProof: []byte{0}, SurjectionProof: []byte{0},
		})
	}
	return add, spent, nil
}

func (FastTxs) ExtractBlindingData(string, map[string][]byte, map[string][]byte) (map[int]application.BlindingData, map[int]application.BlindingData, error) {
	return nil, nil, nil
}

// AssetOf is the hex id of an explicit output asset.
func AssetOf(b []byte) string {
	if len(b) != 33 {
		return ""
	}
	x := append([]byte{}, b[1:]...)
	for i := 0; i < 16; i++ {
		x[i], x[31-i] = x[31-i], x[i]
	}
	return hex.EncodeToString(x)
}

// FastChain is a chain that takes the unsigned transactions of the fast seams:
// inputs must exist and be unspent, nothing else is checked.
type FastChain struct {
	*Chain
	mu      sync.Mutex
	N       map[string]int // accepted broadcasts by txid
	Tried   map[string]int
	Foreign map[Outpoint]string // made-up coins of counterparties, spent by
}

func NewFastChain() *FastChain {
	c := NewChain()
	c.Explicit = true
	return &FastChain{Chain: c, N: map[string]int{}, Tried: map[string]int{}, Foreign: map[Outpoint]string{}}
}

func (c *FastChain) BroadcastTransaction(hx string) (string, error) {
	if err := c.enter("BroadcastTransaction", hx); err != nil {
		return "", err
	}
	tx, err := transaction.NewTxFromHex(hx)
	if err != nil {
		return "", err
	}
	id := tx.TxHash().String()
	c.mu.Lock()
	c.Tried[id]++
	c.mu.Unlock()
	c.Chain.mu.Lock()
	defer c.Chain.mu.Unlock()
	if c.txs[id] != nil {
		return "", errors.New("transaction already in the mempool")
	}
	for _, in := range tx.Inputs {
		op := Outpoint{InHash(in), in.Index}
		if k := c.coins[op]; k != nil && k.spent != "" {
			return "", fmt.Errorf("bad-txns-inputs-missingorspent %s", op)
		}
	}
	for _, in := range tx.Inputs {
		if k := c.coins[Outpoint{InHash(in), in.Index}]; k != nil {
			k.spent = id
		}
	}
	c.addTx(tx, hx)
	c.mu.Lock()
	c.N[id]++
	c.mu.Unlock()
	return id, nil
}

// Broadcasted copies the counts of accepted broadcasts.
func (c *FastChain) Broadcasted() map[string]int {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := map[string]int{}
	for k, v := range c.N {
		r[k] = v
	}
	return r
}

// FastRequest is a proposal of a made-up counterparty with one made-up coin.
func FastRequest(g *Rng, id, assetP string, p uint64, assetR string, r uint64) *pbswap.SwapRequest {
	in := transaction.NewTxInput(g.Bytes(32), uint32(g.Intn(4)))
	x, err := pset.New([]*transaction.TxInput{in}, []*transaction.TxOutput{
		ExplicitOut(assetR, r, append([]byte{0, 20}, g.Bytes(20)...))}, 2, 0)
	if err != nil {
		panic(err)
	}
	b64, err := x.ToBase64()
	if err != nil {
		panic(err)
	}
	if _, err := base64.StdEncoding.DecodeString(b64); err != nil {
		panic(err)
	}
	return &pbswap.SwapRequest{Id: id, AssetP: assetP, AmountP: p, AssetR: assetR, AmountR: r, Transaction: b64}
}

// UseFastSwaps installs the fast seams.
func UseFastSwaps(p FastParser, f FastFiller) {
	domain.SwapParserManager = p
	domain.PsetParserManager = FastPset{}
	application.TradeManager = f
	application.TransactionManager = FastTxs{}
}

// FastComplete is the completion of an accepted trade.
func FastComplete(id string, acc domain.SwapAccept) domain.SwapComplete {
	return &pbswap.SwapComplete{Id: id, AcceptId: acc.GetId(), Transaction: FastSigned(acc.GetTransaction())}
}

var (
	realParser = domain.SwapParserManager
	realPset   = domain.PsetParserManager
	realTrade  = application.TradeManager
	realTxs    = application.TransactionManager
)

// UseRealSwaps puts the repository's own implementations back.
func UseRealSwaps() {
	domain.SwapParserManager, domain.PsetParserManager = realParser, realPset
	application.TradeManager, application.TransactionManager = realTrade, realTxs
}
