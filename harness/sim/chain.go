package sim

import (
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
)

// Net is the network of every run.
var Net = &network.Regtest

// LBTC is the base asset of every run.
var LBTC = network.Regtest.AssetID

// Outpoint names a transaction output.
type Outpoint struct {
	Hash  string
	Index uint32
}

func (o Outpoint) String() string { return fmt.Sprintf("%s:%d", o.Hash, o.Index) }

type coin struct {
	op    Outpoint
	out   *transaction.TxOutput
	spent string // spending txid
}

type chainTx struct {
	tx        *transaction.Transaction
	hex       string
	confirmed bool
	height    int
	time      int64
	hash      string
}

// Bcast is one broadcast attempt the chain saw.
type Bcast struct {
	Seq    int
	Hex    string
	Txid   string
	Err    string // empty when accepted
	Forced bool   // refused by an injected fault, not by validation
}

// Chain is a fake Elements chain behind the repository's explorer interface.
// It accepts a broadcast only as a node would: inputs exist and are unspent,
// witnesses sign, commitments balance, proofs verify.
type Chain struct {
	mu       sync.Mutex
	txs      map[string]*chainTx
	coins    map[Outpoint]*coin
	byScr    map[string][]Outpoint
	txByScr  map[string][]string
	revealed sync.Map
	height   int
	now      int64
	seq      int
	Casts    []Bcast

	// Fault is asked before every call; a non-nil error is returned to the caller.
	Fault func(op, arg string) error
	// Delay is called before every call, outside the lock.
	Delay func(op, arg string)
	// Calls counts calls by name.
	Calls map[string]int
	// SkipAmounts leaves range and surjection proofs unchecked (mock data).
	SkipAmounts bool
	// Explicit makes funding outputs unblinded.
	Explicit bool
}

var _ explorer.Service = (*Chain)(nil)

func NewChain() *Chain {
	return &Chain{
		txs: map[string]*chainTx{}, coins: map[Outpoint]*coin{}, byScr: map[string][]Outpoint{},
		txByScr: map[string][]string{},
		height:  100, now: 1600000000, Calls: map[string]int{},
	}
}

func (c *Chain) enter(op, arg string) error {
	c.mu.Lock()
	c.Calls[op]++
	d, f := c.Delay, c.Fault
	c.mu.Unlock()
	if d != nil {
		d(op, arg)
	}
	if f != nil {
		return f(op, arg)
	}
	return nil
}

// SetFault installs (or removes) the fault injector.
func (c *Chain) SetFault(f func(op, arg string) error) {
	c.mu.Lock()
	c.Fault = f
	c.mu.Unlock()
}

func (c *Chain) CallCount(op string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.Calls[op]
}

// Pay is one output of a funding transaction.
type Pay struct {
	Addr  string
	Asset string
	Value uint64
}

// ScriptOf returns the script of an address.
func ScriptOf(addr string) ([]byte, error) { return address.ToOutputScript(addr) }

// BlindPub returns the blinding public key of a confidential address, or nil.
func BlindPub(addr string) []byte {
	if ok, err := address.IsConfidential(addr); err != nil || !ok {
		return nil
	}
	ca, err := address.FromConfidential(addr)
	if err != nil {
		return nil
	}
	return ca.BlindingKey
}

// MakeOut builds the output paying an address, blinded iff it is confidential.
func MakeOut(p Pay) (*transaction.TxOutput, error) {
	scr, err := ScriptOf(p.Addr)
	if err != nil {
		return nil, err
	}
	if bp := BlindPub(p.Addr); bp != nil {
		return ConfOut(p.Asset, p.Value, scr, bp)
	}
	return ExplicitOut(p.Asset, p.Value, scr), nil
}

// Fund adds a transaction from outside paying the given outputs.
func (c *Chain) Fund(confirmed bool, pays ...Pay) ([]Outpoint, error) {
	outs := make([]*transaction.TxOutput, len(pays))
	for i, p := range pays {
		if c.Explicit {
			scr, err := ScriptOf(p.Addr)
			if err != nil {
				return nil, err
			}
			outs[i] = ExplicitOut(p.Asset, p.Value, scr)
			continue
		}
		o, err := MakeOut(p)
		if err != nil {
			return nil, err
		}
		outs[i] = o
	}
	return c.FundOuts(confirmed, outs...)
}

// MustFund is Fund for harness code that cannot go on without it.
func (c *Chain) MustFund(confirmed bool, pays ...Pay) []Outpoint {
	o, err := c.Fund(confirmed, pays...)
	if err != nil {
		panic("harness fund: " + err.Error())
	}
	return o
}

func (c *Chain) FundOuts(confirmed bool, outs ...*transaction.TxOutput) ([]Outpoint, error) {
	tx := transaction.NewTx(2)
	tx.AddInput(transaction.NewTxInput(RandBytes(32), 0))
	for _, o := range outs {
		tx.AddOutput(o)
	}
	hx, err := tx.ToHex()
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	txid := c.addTx(tx, hx)
	if confirmed {
		c.confirm(txid)
	}
	res := make([]Outpoint, len(outs))
	for i := range outs {
		res[i] = Outpoint{txid, uint32(i)}
	}
	return res, nil
}

func (c *Chain) addTx(tx *transaction.Transaction, hx string) string {
	txid := tx.TxHash().String()
	c.txs[txid] = &chainTx{tx: tx, hex: hx}
	seen := map[string]bool{}
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			continue
		}
		op := Outpoint{txid, uint32(i)}
		c.coins[op] = &coin{op: op, out: o}
		k := hex.EncodeToString(o.Script)
		c.byScr[k] = append(c.byScr[k], op)
		if !seen[k] {
			seen[k] = true
			c.txByScr[k] = append(c.txByScr[k], txid)
		}
	}
	return txid
}

func (c *Chain) confirm(txid string) {
	t := c.txs[txid]
	if t == nil || t.confirmed {
		return
	}
	c.height++
	c.now += 60
	t.confirmed, t.height, t.time = true, c.height, c.now
	t.hash = fmt.Sprintf("%064x", c.height)
}

// Confirm mines one transaction; an empty id mines everything.
func (c *Chain) Confirm(txid string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if txid != "" {
		c.confirm(txid)
		return
	}
	ids := []string{}
	for id, t := range c.txs {
		if !t.confirmed {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		c.confirm(id)
	}
}

// Block returns the block data of a transaction.
func (c *Chain) Block(txid string) (confirmed bool, hash string, tm int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.txs[txid]; t != nil {
		return t.confirmed, t.hash, t.time
	}
	return
}

// Tx returns a known transaction.
func (c *Chain) Tx(txid string) *transaction.Transaction {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.txs[txid]; t != nil {
		return t.tx
	}
	return nil
}

// Out returns an output and whether (and by whom) it is spent.
func (c *Chain) Out(op Outpoint) (*transaction.TxOutput, string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if k := c.coins[op]; k != nil {
		return k.out, k.spent
	}
	return nil, ""
}

// SpendExternally marks a coin spent by a transaction from outside.
func (c *Chain) SpendExternally(op Outpoint) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if k := c.coins[op]; k != nil {
		k.spent = "external"
	}
}

// Broadcasts returns a copy of the attempts so far.
func (c *Chain) Broadcasts() []Bcast {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Bcast{}, c.Casts...)
}

// InHash is the txid an input refers to.
func InHash(in *transaction.TxInput) string {
	return hex.EncodeToString(elementsutil.ReverseBytes(in.Hash))
}

// Validate checks a transaction as a node would.
func (c *Chain) Validate(tx *transaction.Transaction) error {
	c.mu.Lock()
	prevs := make([]*transaction.TxOutput, len(tx.Inputs))
	seen := map[Outpoint]bool{}
	for i, in := range tx.Inputs {
		op := Outpoint{InHash(in), in.Index}
		k := c.coins[op]
		if k == nil {
			c.mu.Unlock()
			return fmt.Errorf("bad-txns-inputs-missingorspent: %s unknown", op)
		}
		if k.spent != "" {
			c.mu.Unlock()
			return fmt.Errorf("bad-txns-inputs-missingorspent: %s spent by %s", op, k.spent)
		}
		if seen[op] {
			c.mu.Unlock()
			return fmt.Errorf("bad-txns-inputs-duplicate: %s", op)
		}
		seen[op] = true
		prevs[i] = k.out
	}
	skip := c.SkipAmounts
	c.mu.Unlock()
	if len(tx.Inputs) == 0 || len(tx.Outputs) == 0 {
		return errors.New("bad-txns-empty")
	}
	for i := range tx.Inputs {
		if err := VerifyWitness(tx, i, prevs[i]); err != nil {
			return fmt.Errorf("mandatory-script-verify-flag-failed: input %d: %s", i, err)
		}
	}
	fees := 0
	for _, o := range tx.Outputs {
		if len(o.Script) == 0 {
			fees++
		}
	}
	if fees == 0 {
		return errors.New("min relay fee not met")
	}
	if skip {
		return nil
	}
	if err := VerifyAmounts(prevs, tx.Outputs); err != nil {
		return fmt.Errorf("bad-txns-in-ne-out: %s", err)
	}
	return nil
}

// BroadcastTransaction implements explorer.Service.
func (c *Chain) BroadcastTransaction(txhex string) (string, error) {
	ferr := c.enter("BroadcastTransaction", txhex)
	rec := func(txid string, err error, forced bool) {
		c.mu.Lock()
		c.seq++
		b := Bcast{Seq: c.seq, Hex: txhex, Txid: txid, Forced: forced}
		if err != nil {
			b.Err = err.Error()
		}
		c.Casts = append(c.Casts, b)
		c.mu.Unlock()
	}
	tx, err := transaction.NewTxFromHex(txhex)
	if err != nil {
		rec("", err, false)
		return "", fmt.Errorf("TX decode failed: %s", err)
	}
	txid := tx.TxHash().String()
	if ferr != nil {
		rec(txid, ferr, true)
		return "", ferr
	}
	if err := c.Validate(tx); err != nil {
		rec(txid, err, false)
		return "", err
	}
	c.mu.Lock()
	for _, in := range tx.Inputs {
		k := c.coins[Outpoint{InHash(in), in.Index}]
		if k == nil || k.spent != "" {
			c.mu.Unlock()
			err := errors.New("bad-txns-inputs-missingorspent")
			rec(txid, err, false)
			return "", err
		}
	}
	for _, in := range tx.Inputs {
		c.coins[Outpoint{InHash(in), in.Index}].spent = txid
	}
	c.addTx(tx, txhex)
	seen := map[string]bool{}
	for _, in := range tx.Inputs {
		k := hex.EncodeToString(c.coins[Outpoint{InHash(in), in.Index}].out.Script)
		if !seen[k] {
			seen[k] = true
			c.txByScr[k] = append(c.txByScr[k], txid)
		}
	}
	c.mu.Unlock()
	rec(txid, nil, false)
	return txid, nil
}

// unblind reveals an output with a key, nil if it does not open it. Outputs
// never change, so the answer is kept (each costs some 50 ms).
func (c *Chain) unblind(op Outpoint, o *transaction.TxOutput, key []byte) *confidential.UnblindOutputResult {
	id := op.String() + hex.EncodeToString(key)
	if r, ok := c.revealed.Load(id); ok {
		return r.(*confidential.UnblindOutputResult)
	}
	r, err := confidential.UnblindOutputWithKey(o, key)
	if err != nil {
		r = nil
	}
	c.revealed.Store(id, r)
	return r
}

func (c *Chain) utxo(k *coin, blindKeys [][]byte) (explorer.Utxo, error) {
	conf := c.txs[k.op.Hash].confirmed
	o := k.out
	if !o.IsConfidential() {
		op, _ := OpenOut(o, nil)
		return esplora.NewWitnessUtxo(k.op.Hash, k.op.Index, op.Value, op.Asset, "", "", nil, nil,
			o.Script, nil, nil, nil, conf), nil
	}
	vc, ac := hex.EncodeToString(o.Value), hex.EncodeToString(o.Asset)
	if len(blindKeys) == 0 {
		return esplora.NewWitnessUtxo(k.op.Hash, k.op.Index, 0, "", vc, ac, nil, nil,
			o.Script, o.Nonce, o.RangeProof, o.SurjectionProof, conf), nil
	}
	for _, key := range blindKeys {
		if r := c.unblind(k.op, o, key); r != nil {
			return esplora.NewWitnessUtxo(k.op.Hash, k.op.Index, r.Value,
				hex.EncodeToString(elementsutil.ReverseBytes(r.Asset)), vc, ac,
				r.ValueBlindingFactor, r.AssetBlindingFactor,
				o.Script, o.Nonce, o.RangeProof, o.SurjectionProof, conf), nil
		}
	}
	return nil, errors.New("error on retrieving utxos: unable to unblind utxo with provided keys")
}

// GetUnspents implements explorer.Service.
func (c *Chain) GetUnspents(addr string, blindKeys [][]byte) ([]explorer.Utxo, error) {
	if err := c.enter("GetUnspents", addr); err != nil {
		return nil, err
	}
	return c.unspents(addr, blindKeys)
}

func (c *Chain) unspents(addr string, blindKeys [][]byte) ([]explorer.Utxo, error) {
	scr, err := ScriptOf(addr)
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	res := []explorer.Utxo{}
	for _, op := range c.byScr[hex.EncodeToString(scr)] {
		k := c.coins[op]
		if k.spent != "" {
			continue
		}
		u, err := c.utxo(k, blindKeys)
		if err != nil {
			return nil, err
		}
		res = append(res, u)
	}
	return res, nil
}

// GetUnspentsForAddresses implements explorer.Service.
func (c *Chain) GetUnspentsForAddresses(addrs []string, keys [][]byte) ([]explorer.Utxo, error) {
	if err := c.enter("GetUnspentsForAddresses", ""); err != nil {
		return nil, err
	}
	res := []explorer.Utxo{}
	for i, a := range addrs {
		ks := keys
		if len(keys) == len(addrs) { // the likely one first
			ks = append([][]byte{keys[i]}, keys...)
		}
		u, err := c.unspents(a, ks)
		if err != nil {
			return nil, err
		}
		res = append(res, u...)
	}
	return res, nil
}

// GetTransaction implements explorer.Service.
func (c *Chain) GetTransaction(txid string) (explorer.Transaction, error) {
	if err := c.enter("GetTransaction", txid); err != nil {
		return nil, err
	}
	c.mu.Lock()
	t := c.txs[txid]
	if t == nil {
		c.mu.Unlock()
		return nil, errors.New("Transaction not found")
	}
	hx, conf := t.hex, t.confirmed
	c.mu.Unlock()
	return esplora.NewTxFromHex(hx, conf)
}

// GetTransactionHex implements explorer.Service.
func (c *Chain) GetTransactionHex(txid string) (string, error) {
	if err := c.enter("GetTransactionHex", txid); err != nil {
		return "", err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.txs[txid]
	if t == nil {
		return "", errors.New("Transaction not found")
	}
	return t.hex, nil
}

// IsTransactionConfirmed implements explorer.Service.
func (c *Chain) IsTransactionConfirmed(txid string) (bool, error) {
	if err := c.enter("IsTransactionConfirmed", txid); err != nil {
		return false, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.txs[txid]
	if t == nil {
		return false, errors.New("Transaction not found")
	}
	return t.confirmed, nil
}

// GetTransactionStatus implements explorer.Service.
func (c *Chain) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	if err := c.enter("GetTransactionStatus", txid); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.txs[txid]
	if t == nil {
		return map[string]interface{}{"confirmed": false}, nil
	}
	if !t.confirmed {
		return map[string]interface{}{"confirmed": false}, nil
	}
	return map[string]interface{}{
		"confirmed": true, "block_height": float64(t.height),
		"block_hash": t.hash, "block_time": float64(t.time),
	}, nil
}

// GetTransactionsForAddress implements explorer.Service.
func (c *Chain) GetTransactionsForAddress(addr string, key []byte) ([]explorer.Transaction, error) {
	if err := c.enter("GetTransactionsForAddress", addr); err != nil {
		return nil, err
	}
	scr, err := ScriptOf(addr)
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	ids := append([]string{}, c.txByScr[hex.EncodeToString(scr)]...)
	c.mu.Unlock()
	res := []explorer.Transaction{}
	for _, id := range ids {
		c.mu.Lock()
		hx, conf := c.txs[id].hex, c.txs[id].confirmed
		c.mu.Unlock()
		t, err := esplora.NewTxFromHex(hx, conf)
		if err != nil {
			return nil, err
		}
		res = append(res, t)
	}
	return res, nil
}

// GetBlockHeight implements explorer.Service.
func (c *Chain) GetBlockHeight() (int, error) {
	if err := c.enter("GetBlockHeight", ""); err != nil {
		return -1, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.height, nil
}

// Faucet implements explorer.Service.
func (c *Chain) Faucet(addr string, amount float64, asset string) (string, error) {
	o, err := c.Fund(true, Pay{addr, asset, uint64(amount * 1e8)})
	if err != nil {
		return "", err
	}
	return o[0].Hash, nil
}

// Mint implements explorer.Service.
func (c *Chain) Mint(addr string, amount float64) (string, string, error) {
	asset := hex.EncodeToString(RandBytes(32))
	o, err := c.Fund(true, Pay{addr, asset, uint64(amount * 1e8)})
	if err != nil {
		return "", "", err
	}
	return o[0].Hash, asset, nil
}

// Unspent lists the unspent outputs of a script.
func (c *Chain) Unspent(script []byte) []Outpoint {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := []Outpoint{}
	for _, op := range c.byScr[hex.EncodeToString(script)] {
		if c.coins[op].spent == "" {
			res = append(res, op)
		}
	}
	return res
}

// Sleep is a tiny wrapper that keeps fault callbacks readable.
func Sleep(us int) { time.Sleep(time.Duration(us) * time.Microsecond) }
