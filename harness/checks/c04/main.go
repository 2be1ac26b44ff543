// Monitor of C04: what the daemon broadcasts in answer to completions.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/btcsuite/btcutil/psbt"
	"github.com/golang/protobuf/proto"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

// ownKey is a key of the daemon's wallet.
type ownKey struct {
	k    *btcec.PrivateKey
	addr string
}

type env struct {
	r     *sim.Rec
	d     *sim.Daemon
	g     *sim.Rng
	mu    sync.Mutex
	known map[string]*swp // accepted swaps by the hash of their transaction without witnesses
	late  sync.WaitGroup
	own   []ownKey
}

// swp is an accepted swap and what the harness needs to complete it.
type swp struct {
	kind  string
	acc   string // id of the accept message
	id    string // trade
	ptx   string // accepted PSET
	full  string // completed PSET
	txid  string
	keys  []*btcec.PrivateKey // by input, nil where unknown
	mine  []sim.Outpoint      // the daemon's coins
	hist  []string
	done  bool
	final string
	dead  string // why it must not complete any more
}

func (s *swp) say(f string, a ...interface{}) {
	s.hist = append(s.hist, fmt.Sprintf(f, a...))
	if len(s.hist) > 14 {
		s.hist = s.hist[len(s.hist)-14:]
	}
}
func (s *swp) String() string { return s.kind + ": " + strings.Join(s.hist, "; ") }

func parse(b64 string) *pset.Pset {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		panic("harness: own PSET: " + err.Error())
	}
	return p
}

func b64(p *pset.Pset) string {
	s, err := p.ToBase64()
	if err != nil {
		return ""
	}
	return s
}

func code(pub []byte) []byte {
	c := append([]byte{0x76, 0xa9, 0x14}, btcutil.Hash160(pub)...)
	return append(c, 0x88, 0xac)
}

func sign(tx *transaction.Transaction, i int, value []byte, k *btcec.PrivateKey, ht txscript.SigHashType) []byte {
	h := tx.HashForWitnessV0(i, code(k.PubKey().SerializeCompressed()), value, ht)
	s, err := k.Sign(h[:])
	if err != nil {
		panic(err)
	}
	return append(s.Serialize(), byte(ht))
}

func psig(tx *transaction.Transaction, i int, value []byte, k *btcec.PrivateKey) *psbt.PartialSig {
	return &psbt.PartialSig{PubKey: k.PubKey().SerializeCompressed(), Signature: sign(tx, i, value, k, txscript.SigHashAll)}
}

func (e *env) value(tx *transaction.Transaction, i int) []byte {
	o, _ := e.d.Chain.Out(sim.Outpoint{Hash: sim.InHash(tx.Inputs[i]), Index: tx.Inputs[i].Index})
	if o == nil {
		return sim.ExplicitValue(1)
	}
	return o.Value
}

// bare is the identity of a transaction without what signs it.
func bare(tx *transaction.Transaction) string {
	c := tx.Copy()
	for _, in := range c.Inputs {
		in.Script = nil
		in.Witness = nil
	}
	return c.TxHash().String()
}

// finalOf is the harness's own reading of a completion: the final transaction
// it stands for, nil if it stands for none.
func (e *env) finalOf(s *swp, tx string) *transaction.Transaction {
	var t *transaction.Transaction
	if _, err := hex.DecodeString(tx); err == nil {
		if sim.BoundedTx(tx) != nil {
			return nil
		}
		ok, _, _ := sim.Guard(func() { t, err = transaction.NewTxFromHex(tx) })
		if !ok || err != nil {
			return nil
		}
	} else {
		if sim.BoundedPset(tx) != nil {
			return nil
		}
		var p *pset.Pset
		ok, _, _ := sim.Guard(func() { p, err = pset.NewPsetFromBase64(tx) })
		if !ok || err != nil || p == nil {
			return nil
		}
		t = p.UnsignedTx.Copy()
		for i, in := range p.Inputs {
			if len(in.PartialSigs) != 1 {
				return nil
			}
			t.Inputs[i].Witness = transaction.TxWitness{in.PartialSigs[0].Signature, in.PartialSigs[0].PubKey}
		}
	}
	if bare(t) != s.txid {
		return nil
	}
	for i, in := range t.Inputs {
		o, _ := e.d.Chain.Out(sim.Outpoint{Hash: sim.InHash(in), Index: in.Index})
		if o == nil || sim.VerifyWitness(t, i, o) != nil {
			return nil
		}
	}
	return t
}

// judgeCast checks one broadcast attempt caused by a completion of s.
func (e *env) judgeCast(s *swp, b sim.Bcast) {
	r := e.r
	r.Count("broadcast-attempts", 1)
	tx, err := transaction.NewTxFromHex(b.Hex)
	if err != nil || b.Hex == "" {
		r.Violate("broadcast-garbage", "%s: broadcast %.60q: %v", s, b.Hex, err)
		return
	}
	if h := bare(tx); h != s.txid {
		r.Violate("broadcast-foreign", "%s: broadcast %s, accepted %s", s, h, s.txid)
		return
	}
	for i, in := range tx.Inputs {
		o, _ := e.d.Chain.Out(sim.Outpoint{Hash: sim.InHash(in), Index: in.Index})
		if o == nil {
			continue
		}
		if err := sim.VerifyWitness(tx, i, o); err != nil && err.Error() != "sighash type" {
			if strings.HasPrefix(err.Error(), "sighash type") {
				continue
			}
			r.Violate("broadcast-unsigned", "%s: input %d of the broadcast transaction: %s", s, i, err)
			return
		}
	}
	if s.done {
		r.Violate("broadcast-again", "%s: broadcast again after the trade completed", s)
	}
	if s.dead != "" {
		r.Violate("broadcast-dead", "%s: broadcast although the trade is %s", s, s.dead)
	}
	r.Count("broadcasts-verified", 1)
}

func (e *env) trade(s *swp) *domain.Trade { return e.d.TradeByAccept(s.acc) }

func (e *env) spent(mine []sim.Outpoint) (n int) {
	for _, o := range mine {
		u, err := e.d.Repo.UnspentRepository().GetUnspentWithKey(ctx, domain.UnspentKey{TxID: o.Hash, VOut: o.Index})
		if err == nil && u != nil && u.Spent {
			n++
		}
	}
	return
}

type answer struct {
	txid string
	fail domain.SwapFail
	err  error
	ok   bool // returned at all
}

func (a answer) String() string {
	switch {
	case !a.ok:
		return "panic"
	case a.err != nil:
		return "error " + a.err.Error()
	case a.fail != nil:
		return "fail " + a.fail.GetFailureMessage()
	}
	return "txid " + a.txid
}

func (e *env) complete(s *swp, accID, tx, kind string) answer {
	var a answer
	var m domain.SwapComplete = &pbswap.SwapComplete{Id: "c" + e.g.Str(6), AcceptId: accID, Transaction: tx}
	done, dump := sim.Within(40*time.Second, func() {
		a.ok = e.r.GuardV("complete", s.String()+" / "+kind, func() {
			a.txid, a.fail, a.err = e.d.Trade.TradeComplete(ctx, &m, nil)
		})
	})
	if !done {
		e.r.Violate("complete-hangs", "%s / %s: no answer within 40 s\n%.2000s", s, kind, dump)
	}
	return a
}

// one sends one completion in sequence and judges it.
func (e *env) one(s *swp, accID, tx, kind string) answer {
	r := e.r
	before := len(e.d.Chain.Broadcasts())
	tb := e.trade(s)
	want := e.finalOf(s, tx)
	a := e.complete(s, accID, tx, kind)
	s.say("%s -> %.70s", kind, a)
	r.Eval(s.kind + kind)
	r.Count("completions", 1)
	casts := e.d.Chain.Broadcasts()[before:]
	for _, b := range casts {
		e.judgeCast(s, b)
	}
	if !a.ok {
		return a
	}
	ta := e.trade(s)
	if ta == nil || tb == nil {
		r.Violate("trade-lost", "%s: the trade is not in the repository", s)
		return a
	}
	success := a.err == nil && a.fail == nil
	switch {
	case s.done:
		// the answer for a completed trade is free, the trade must not move
		if !sim.SameTrade(*tb, *ta) {
			r.Violate("completed-changed", "%s: the completed trade changed", s)
		}
		if success && a.txid != s.txid {
			r.Violate("completed-other-txid", "%s: answered txid %s, the trade's is %s", s, a.txid, s.txid)
		}
	case accID != s.acc || want == nil || s.dead != "":
		r.Count("hostile", 1)
		if success {
			r.Violate("hostile-accepted", "%s: %s was answered with success (%s)", s, kind, a)
		}
		if len(casts) > 0 {
			r.Violate("hostile-broadcast", "%s: %s caused %d broadcast attempts", s, kind, len(casts))
		}
		if a.err == nil && a.fail == nil {
			break
		}
		if sim.St(ta.Status) != sim.St(tb.Status) || ta.TxHex != tb.TxHex || ta.TxID != tb.TxID || ta.PsetBase64 != tb.PsetBase64 {
			r.Violate("hostile-moved", "%s: the trade went from %s to %s", s, sim.St(tb.Status), sim.St(ta.Status))
		}
	case success:
		okCast := 0
		for _, b := range casts {
			if b.Err == "" {
				okCast++
			}
		}
		if okCast != 1 {
			r.Violate("success-without-broadcast", "%s: success with %d accepted broadcasts", s, okCast)
		}
		e.completed(s, a)
	default:
		failedCast := false
		for _, b := range casts {
			if b.Err != "" {
				failedCast = true
			} else {
				r.Violate("broadcast-but-refused", "%s: the transaction was broadcast, the answer is %s", s, a)
			}
		}
		// a valid completion is refused only when the broadcast is
		if !failedCast && kind[:2] == "ok" {
			r.Violate("valid-refused", "%s: a valid completion was refused: %s", s, a)
		}
		if ta.Status != tb.Status || ta.TxHex != tb.TxHex {
			r.Violate("failed-broadcast-moved", "%s: the trade went from %s to %s though nothing was broadcast", s, sim.St(tb.Status), sim.St(ta.Status))
		}
		r.Count("refused-by-network", 1)
	}
	return a
}

// completed checks what follows a successful completion.
func (e *env) completed(s *swp, a answer) {
	r := e.r
	s.done = true
	r.Count("completed", 1)
	ta := e.trade(s)
	if ta == nil || sim.St(ta.Status) != "completed" && sim.St(ta.Status) != "settled" {
		st := "gone"
		if ta != nil {
			st = sim.St(ta.Status)
		}
		r.Violate("not-completed", "%s: broadcast succeeded, the trade is %s", s, st)
		return
	}
	if a.txid != s.txid || ta.TxID != s.txid {
		r.Violate("wrong-txid", "%s: answered %s, stored %s, the transaction is %s", s, a.txid, ta.TxID, s.txid)
	}
	if t, err := transaction.NewTxFromHex(ta.TxHex); err != nil || bare(t) != s.txid {
		r.Violate("wrong-txhex", "%s: the stored raw transaction is not the one of the swap (%v)", s, err)
	}
	mine := append([]sim.Outpoint{}, s.mine...)
	e.late.Add(1)
	go func() {
		defer e.late.Done()
		time.Sleep(5 * time.Millisecond)
		end := time.Now().Add(20 * time.Second)
		n := 0
		for d := 5; time.Now().Before(end); d += 5 {
			if n = e.spent(mine); n == len(mine) {
				r.Count("coins-spent", int64(n))
				return
			}
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		r.Violate("coins-available", "%d of the %d coins it spends are marked spent; %s", n, len(mine), s)
	}()
}

// ---- workloads ----

// synthetic stores an accepted swap with explicit amounts.
func (e *env) synthetic(quote string) *swp {
	g := e.g
	s := &swp{kind: "explicit", acc: "acc" + g.Str(12)}
	tx := transaction.NewTx(2)
	nIn := 2 + g.Intn(5)
	own := 1 + g.Intn(nIn-1)
	var outs []*transaction.TxOutput
	sum := map[string]uint64{}
	var addrs []string
	shared, _ := btcec.NewPrivateKey(btcec.S256())
	for i := 0; i < nIn; i++ {
		k, _ := btcec.NewPrivateKey(btcec.S256())
		if i >= own && g.Chance(3) {
			k = shared
		}
		addr := ""
		if i < own {
			o := e.own[g.Intn(len(e.own))]
			k, addr = o.k, o.addr
		}
		addrs = append(addrs, addr)
		as := []string{sim.LBTC, quote}[i%2]
		v := 1000 + g.Log(34)
		sum[as] += v
		outs = append(outs, sim.ExplicitOut(as, v, sim.P2WPKH(k.PubKey().SerializeCompressed())))
		s.keys = append(s.keys, k)
	}
	ops, err := e.d.Chain.FundOuts(true, outs...)
	if err != nil {
		panic(err)
	}
	// coins of another transaction too, so that hashes differ
	if g.Bool() {
		o2, err := e.d.Chain.FundOuts(true, outs[0])
		if err == nil {
			ops[0] = o2[0]
		}
	}
	var uns []domain.Unspent
	for i, op := range ops {
		h, _ := hex.DecodeString(op.Hash)
		for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
			h[a], h[b] = h[b], h[a]
		}
		in := transaction.NewTxInput(h, op.Index)
		if g.Chance(3) {
			in.Sequence = uint32(g.U64())
		}
		tx.AddInput(in)
		if i < own {
			s.mine = append(s.mine, op)
			uns = append(uns, domain.Unspent{TxID: op.Hash, VOut: op.Index, Value: 5, AssetHash: sim.LBTC, Address: addrs[i], Confirmed: true, ScriptPubKey: outs[i].Script})
		}
	}
	if g.Chance(3) {
		tx.Locktime = uint32(g.Intn(500000))
	}
	fee := uint64(300)
	for as, v := range sum {
		if as == sim.LBTC {
			v -= fee
		}
		for n := 1 + g.Intn(3); n > 1 && v > 10; n-- {
			x := 1 + g.Range(0, v/2)
			v -= x
			tx.AddOutput(sim.ExplicitOut(as, x, sim.P2WPKH(g.Bytes(33))))
		}
		tx.AddOutput(sim.ExplicitOut(as, v, sim.P2WPKH(g.Bytes(33))))
	}
	tx.AddOutput(sim.ExplicitOut(sim.LBTC, fee, []byte{}))
	p, err := pset.NewPsetFromUnsignedTx(tx)
	if err != nil {
		panic(err)
	}
	for i := range p.Inputs {
		p.Inputs[i].WitnessUtxo = outs[i]
		p.Inputs[i].SighashType = txscript.SigHashAll
		if i < own {
			p.Inputs[i].PartialSigs = []*psbt.PartialSig{psig(p.UnsignedTx, i, outs[i].Value, s.keys[i])}
		}
	}
	s.ptx, s.txid = b64(p), bare(tx)
	for i := range p.Inputs {
		if i >= own {
			p.Inputs[i].PartialSigs = []*psbt.PartialSig{psig(p.UnsignedTx, i, outs[i].Value, s.keys[i])}
		}
	}
	s.full = b64(p)
	msg, err := proto.Marshal(&pbswap.SwapAccept{Id: s.acc, RequestId: "req" + s.acc, Transaction: s.ptx})
	if err != nil {
		panic(err)
	}
	if err := e.d.Repo.UnspentRepository().AddUnspents(ctx, uns); err != nil {
		e.r.Inconclusive("add unspents: %s", err)
	}
	tr, err := e.d.Repo.TradeRepository().GetOrCreateTrade(ctx, nil)
	if err != nil {
		e.r.Inconclusive("create trade: %s", err)
		return nil
	}
	id := tr.ID
	s.id = id.String()
	now := uint64(time.Now().Unix())
	if err := e.d.Repo.TradeRepository().UpdateTrade(ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
		t.MarketQuoteAsset = quote
		t.Status = domain.AcceptedStatus
		t.ExpiryTime = now + 3600
		t.SwapRequest = domain.Swap{ID: "req" + s.acc, Message: []byte{}, Timestamp: now}
		t.SwapAccept = domain.Swap{ID: s.acc, Message: msg, Timestamp: now}
		t.TxID, t.PsetBase64 = s.txid, s.ptx
		return t, nil
	}); err != nil {
		e.r.Inconclusive("store trade: %s", err)
		return nil
	}
	var keys []domain.UnspentKey
	for _, u := range uns {
		keys = append(keys, u.Key())
	}
	if _, err := e.d.Repo.UnspentRepository().LockUnspents(ctx, keys, id); err != nil {
		e.r.Inconclusive("lock: %s", err)
	}
	e.r.Count("synthetic", 1)
	return s
}

// real makes a trader trade with the daemon.
func (e *env) real(m application.Market) *swp {
	g := e.g
	tt := application.TradeBuy
	if g.Bool() {
		tt = application.TradeSell
	}
	p, err := e.d.Propose(m, tt, 20000+g.Range(0, 40000), "r"+g.Str(8))
	if err != nil || p.Acc == nil {
		e.r.Count("no-proposal", 1)
		e.r.Sample(fmt.Sprint(err, p != nil && p.Fail != nil))
		return nil
	}
	s := &swp{kind: "real", acc: p.Acc.GetId(), ptx: p.Acc.GetTransaction()}
	c, err := p.Trader.Complete("c", p.Acc)
	if err != nil {
		e.r.Inconclusive("trader cannot sign: %s", err)
		return nil
	}
	s.full = c.Transaction
	x := parse(s.full)
	s.txid = bare(x.UnsignedTx)
	s.keys = make([]*btcec.PrivateKey, len(x.Inputs))
	own := map[sim.Outpoint]bool{}
	for _, u := range e.d.Unspents() {
		own[sim.Outpoint{Hash: u.TxID, Index: u.VOut}] = true
	}
	for _, in := range x.UnsignedTx.Inputs {
		if o := (sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}); own[o] {
			s.mine = append(s.mine, o)
		}
	}
	if len(s.mine) == 0 {
		e.r.Inconclusive("an accepted swap spends none of the daemon's coins")
	}
	e.r.Count("real", 1)
	return s
}

func (e *env) finalHex(s *swp) string {
	t := e.finalOf(s, s.full)
	if t == nil {
		e.r.Inconclusive("%s: the harness's own completion is not valid", s)
		return ""
	}
	h, err := t.ToHex()
	if err != nil {
		panic(err)
	}
	return h
}

// resign signs every input whose key is known again.
func (e *env) resign(p *pset.Pset, s *swp) {
	for i := range p.Inputs {
		if i < len(s.keys) && s.keys[i] != nil && i < len(p.UnsignedTx.Inputs) {
			p.Inputs[i].PartialSigs = []*psbt.PartialSig{psig(p.UnsignedTx, i, e.value(p.UnsignedTx, i), s.keys[i])}
		}
	}
}

func (e *env) witness(p *pset.Pset) *transaction.Transaction {
	t := p.UnsignedTx.Copy()
	for i, in := range p.Inputs {
		if len(in.PartialSigs) > 0 {
			t.Inputs[i].Witness = transaction.TxWitness{in.PartialSigs[0].Signature, in.PartialSigs[0].PubKey}
		}
	}
	return t
}

func hexOf(t *transaction.Transaction) string {
	h, err := t.ToHex()
	if err != nil {
		return ""
	}
	return h
}

// tamper changes the transaction itself.
func (e *env) tamper(p *pset.Pset, s *swp) string {
	g, tx := e.g, p.UnsignedTx
	no := len(tx.Outputs)
	i := g.Intn(no)
	switch g.Intn(12) {
	case 0:
		v := append([]byte{}, tx.Outputs[i].Value...)
		v[len(v)-1] ^= byte(1 + g.Intn(255))
		tx.Outputs[i].Value = v
		return "value"
	case 1:
		tx.Outputs[i].Script = sim.P2WPKH(g.Bytes(33))
		return "script"
	case 2:
		v := append([]byte{}, tx.Outputs[i].Asset...)
		v[1+g.Intn(32)] ^= 1
		tx.Outputs[i].Asset = v
		return "asset"
	case 3:
		if no > 2 {
			tx.Outputs = append(append([]*transaction.TxOutput{}, tx.Outputs[:i]...), tx.Outputs[i+1:]...)
			p.Outputs = append(append([]pset.POutput{}, p.Outputs[:i]...), p.Outputs[i+1:]...)
		}
		return "drop-output"
	case 4:
		tx.Outputs = append(tx.Outputs, sim.ExplicitOut(sim.LBTC, 1+g.Log(20), sim.P2WPKH(g.Bytes(33))))
		p.Outputs = append(p.Outputs, pset.POutput{})
		return "add-output"
	case 5:
		j := (i + 1) % no
		tx.Outputs[i], tx.Outputs[j] = tx.Outputs[j], tx.Outputs[i]
		return "swap-outputs"
	case 6:
		tx.Locktime++
		return "locktime"
	case 7:
		tx.Version++
		return "version"
	case 8:
		tx.Inputs[g.Intn(len(tx.Inputs))].Sequence ^= 1 << uint(g.Intn(32))
		return "sequence"
	case 9:
		k, _ := btcec.NewPrivateKey(btcec.S256())
		o := sim.ExplicitOut(sim.LBTC, 5000, sim.P2WPKH(k.PubKey().SerializeCompressed()))
		ops, err := e.d.Chain.FundOuts(true, o)
		if err != nil {
			panic(err)
		}
		h, _ := hex.DecodeString(ops[0].Hash)
		for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
			h[a], h[b] = h[b], h[a]
		}
		in := transaction.NewTxInput(h, ops[0].Index)
		if g.Bool() && len(s.mine) < len(tx.Inputs) {
			// instead of an input
			n := g.Intn(len(tx.Inputs))
			tx.Inputs[n] = in
			p.Inputs[n] = pset.PInput{WitnessUtxo: o}
			if s.keys[n] != nil {
				e.resign(p, s)
			}
			p.Inputs[n].PartialSigs = []*psbt.PartialSig{psig(tx, n, o.Value, k)}
			return "replace-input"
		}
		tx.Inputs = append(tx.Inputs, in)
		p.Inputs = append(p.Inputs, pset.PInput{WitnessUtxo: o})
		e.resign(p, s)
		n := len(tx.Inputs) - 1
		p.Inputs[n].PartialSigs = []*psbt.PartialSig{psig(tx, n, o.Value, k)}
		return "add-input"
	case 10:
		n := len(tx.Inputs) - 1
		tx.Inputs = tx.Inputs[:n]
		p.Inputs = p.Inputs[:n]
		return "drop-input"
	default:
		tx.Outputs[i].Nonce = append([]byte{2}, g.Bytes(32)...)
		return "nonce"
	}
}

// mutant makes a completion that is most likely no valid one.
func (e *env) mutant(s, other *swp) (tx, kind string) {
	g := e.g
	p := parse(s.full)
	n := len(p.Inputs)
	i := g.Intn(n)
	switch g.Intn(23) {
	case 21:
		return e.bomb(s)
	case 0:
		return s.ptx, "accepted-as-is"
	case 1:
		p.Inputs[i].PartialSigs = nil
		return b64(p), "signature-missing"
	case 2:
		p.Inputs[i].PartialSigs = nil
		return hexOf(e.witness(p)), "hex-signature-missing"
	case 3:
		return hexOf(p.UnsignedTx), "hex-unsigned"
	case 4:
		return hexOf(e.witness(parse(s.ptx))), "hex-accepted-as-is"
	case 5:
		j := (i + 1) % n
		p.Inputs[i].PartialSigs, p.Inputs[j].PartialSigs = p.Inputs[j].PartialSigs, p.Inputs[i].PartialSigs
		if g.Bool() {
			return hexOf(e.witness(p)), "hex-signatures-swapped"
		}
		return b64(p), "signatures-swapped"
	case 6, 7, 8:
		k := e.tamper(p, s)
		if g.Bool() {
			e.resign(p, s)
		}
		if g.Bool() {
			return hexOf(e.witness(p)), "hex-tampered-" + k
		}
		return b64(p), "tampered-" + k
	case 9:
		if other != nil {
			if g.Bool() {
				return e.finalHex(other), "hex-of-another-trade"
			}
			return other.full, "of-another-trade"
		}
		return "", "empty"
	case 10: // sign with a key of one's own, claiming the prevout pays to it
		k, _ := btcec.NewPrivateKey(btcec.S256())
		o := *p.Inputs[i].WitnessUtxo
		o.Script = sim.P2WPKH(k.PubKey().SerializeCompressed())
		p.Inputs[i].WitnessUtxo = &o
		p.Inputs[i].PartialSigs = []*psbt.PartialSig{psig(p.UnsignedTx, i, o.Value, k)}
		return b64(p), "forged-prevout"
	case 11:
		k, _ := btcec.NewPrivateKey(btcec.S256())
		t := e.witness(p)
		t.Inputs[i].Witness = transaction.TxWitness{sign(t, i, e.value(t, i), k, txscript.SigHashAll), k.PubKey().SerializeCompressed()}
		return hexOf(t), "hex-foreign-key"
	case 12:
		t := e.witness(p)
		w := t.Inputs[i].Witness
		switch g.Intn(5) {
		case 0:
			t.Inputs[i].Witness = transaction.TxWitness{w[0]}
		case 1:
			t.Inputs[i].Witness = transaction.TxWitness{{}, w[1]}
		case 2:
			t.Inputs[i].Witness = transaction.TxWitness{w[0], w[1], {1}}
		case 3:
			t.Inputs[i].Witness = transaction.TxWitness{w[1], w[0]}
		case 4:
			b := append([]byte{}, w[0]...)
			b[8+g.Intn(20)] ^= 1
			t.Inputs[i].Witness = transaction.TxWitness{b, w[1]}
		}
		return hexOf(t), "hex-broken-witness"
	case 13:
		t := e.witness(p)
		t.Inputs[i].Witness = nil
		t.Inputs[i].Script = g.Bytes(1 + g.Intn(60))
		return hexOf(t), "hex-script-instead-of-witness"
	case 14:
		b := append([]byte{}, p.Inputs[i].PartialSigs[0].Signature...)
		b[8+g.Intn(20)] ^= 1
		p.Inputs[i].PartialSigs[0].Signature = b
		return b64(p), "broken-signature"
	case 15:
		k, _ := btcec.NewPrivateKey(btcec.S256())
		p.Inputs[i].RedeemScript = sim.P2WPKH(k.PubKey().SerializeCompressed())
		if g.Bool() {
			p.Inputs[i].PartialSigs = []*psbt.PartialSig{psig(p.UnsignedTx, i, e.value(p.UnsignedTx, i), k)}
		}
		return b64(p), "redeem-script"
	case 16:
		switch g.Intn(3) {
		case 0:
			p.Inputs[i].WitnessUtxo = nil
		case 1:
			p.Inputs[i].WitnessUtxo = nil
			p.Inputs[i].NonWitnessUtxo = e.d.Chain.Tx(sim.InHash(p.UnsignedTx.Inputs[i]))
		case 2:
			t := transaction.NewTx(2)
			t.AddInput(transaction.NewTxInput(g.Bytes(32), 0))
			p.Inputs[i].NonWitnessUtxo = t
		}
		return b64(p), "other-prevout-fields"
	case 17:
		p.Inputs[i].FinalScriptWitness = append([]byte{0xff}, bytes.Repeat([]byte{0xff}, 8)...)
		if g.Bool() {
			p.Inputs[i].PartialSigs = nil
		}
		return b64(p), "final-witness"
	case 18:
		x := s.full
		switch g.Intn(5) {
		case 0:
			x = x[:g.Intn(len(x))]
		case 1:
			b, _ := base64.StdEncoding.DecodeString(x)
			b[g.Intn(len(b))] ^= byte(1 << uint(g.Intn(8)))
			x = base64.StdEncoding.EncodeToString(b)
		case 2:
			x = base64.StdEncoding.EncodeToString(g.Bytes(g.Intn(300)))
		case 3:
			b, _ := base64.StdEncoding.DecodeString(x)
			x = hex.EncodeToString(b)
		case 4:
			x = g.Str(g.Intn(80))
		}
		return x, "garbled"
	case 19:
		x := e.finalHex(s)
		switch g.Intn(4) {
		case 0:
			x = x[:2*g.Intn(len(x)/2)]
		case 1:
			b, _ := hex.DecodeString(x)
			b[g.Intn(len(b))] ^= byte(1 << uint(g.Intn(8)))
			x = hex.EncodeToString(b)
		case 2:
			x = g.Hex(g.Intn(300))
		case 3:
			x = base64.StdEncoding.EncodeToString([]byte(x))
		}
		return x, "hex-garbled"
	case 20:
		if s.keys[i] == nil {
			return s.ptx, "accepted-as-is"
		}
		p.Inputs[i].PartialSigs[0].Signature = sign(p.UnsignedTx, i, sim.ExplicitValue(1+g.Log(30)), s.keys[i], txscript.SigHashAll)
		if g.Bool() {
			return hexOf(e.witness(p)), "hex-signed-other-value"
		}
		return b64(p), "signed-other-value"
	default:
		return "", "empty"
	}
}

// bomb declares far more data than it holds.
func (e *env) bomb(s *swp) (tx, kind string) {
	g := e.g
	huge := append([]byte{0xff}, g.Bytes(8)...)
	huge[8] = byte(1 + g.Intn(127)) // 2^56 bytes and more
	put := func(b []byte, at int) []byte {
		return append(append(append([]byte{}, b[:at]...), huge...), b[at+1:]...)
	}
	if g.Bool() {
		b, _ := hex.DecodeString(e.finalHex(s))
		at := 4 + 1 + 1 + 36 // length of the first input's script
		if g.Bool() {
			at = g.Intn(len(b))
		}
		return hex.EncodeToString(put(b, at)), "hex-bomb"
	}
	p := parse(s.full)
	b, err := p.UnsignedTx.Serialize()
	if err != nil {
		panic(err)
	}
	b = put(b, 4+1+1+36)
	out := append([]byte("pset"), 0xff, 1, 0)
	out = append(out, 0xfd, byte(len(b)), byte(len(b)>>8))
	out = append(out, b...)
	return base64.StdEncoding.EncodeToString(append(out, 0, 0, 0)), "bomb"
}

func (e *env) valid(s *swp) (tx, kind string) {
	switch e.g.Intn(3) {
	case 0:
		return e.finalHex(s), "ok-hex"
	case 1:
		return strings.ToUpper(e.finalHex(s)), "ok-HEX"
	}
	return s.full, "ok-pset"
}

// play drives one accepted swap through one story.
func (e *env) play(s, other *swp) {
	g, r := e.g, e.r
	if s == nil {
		return
	}
	for n := 2 + g.Intn(8); n > 0 && !s.done; n-- {
		tx, kind := e.mutant(s, other)
		e.one(s, s.acc, tx, kind)
	}
	if s.done {
		r.Count("completed-by-mutant", 1)
	}
	if g.Chance(3) {
		tx, kind := e.valid(s)
		e.one(s, []string{"", "unknown", s.txid, s.id, "req" + s.acc, "x" + s.acc}[g.Intn(6)], tx, kind+"-other-accept-id")
	}
	switch pick := g.Intn(10); {
	case s.done:
	case pick == 0: // failed by the counterparty
		var f domain.SwapFail = &pbswap.SwapFail{Id: "f", MessageId: s.acc, FailureCode: 1, FailureMessage: "no"}
		_, _, err := e.d.Trade.TradeComplete(ctx, nil, &f)
		s.say("fail message -> %v", err)
		if err == nil {
			s.dead = "failed"
			r.Count("failed", 1)
		}
	case pick == 1: // expired
		if t := e.trade(s); t != nil {
			if err := e.d.ShiftExpiry(t, time.Now().Unix()-int64(g.Intn(100))); err == nil {
				s.dead = "expired"
				s.say("expires")
				r.Count("expired", 1)
			}
		}
	case pick == 2 || pick == 3: // the network refuses for a while
		n := 1 + g.Intn(3)
		for k := 0; k < n; k++ {
			e.d.Chain.SetFault(func(op, arg string) error {
				if op == "BroadcastTransaction" {
					return errors.New("injected")
				}
				return nil
			})
			tx, kind := e.valid(s)
			a := e.one(s, s.acc, tx, kind+"-net-down")
			if a.ok && a.err == nil && a.fail == nil {
				r.Violate("success-net-down", "%s: success although nothing can be broadcast", s)
			}
			e.d.Chain.SetFault(nil)
			if g.Bool() {
				tx, kind := e.mutant(s, other)
				e.one(s, s.acc, tx, kind)
			}
			r.Count("net-down", 1)
		}
	case pick == 6: // the counterparty spends one of its coins elsewhere
		x := parse(s.full)
		own := map[sim.Outpoint]bool{}
		for _, o := range s.mine {
			own[o] = true
		}
		for _, in := range x.UnsignedTx.Inputs {
			if o := (sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}); !own[o] && len(s.mine) > 0 {
				e.d.Chain.SpendExternally(o)
				s.say("double spent")
				r.Count("double-spent", 1)
				break
			}
		}
	case pick == 4 || pick == 5:
		e.concurrent(s, other)
	}
	tx, kind := e.valid(s)
	e.one(s, s.acc, tx, kind)
	for n := 1 + g.Intn(4); n > 0; n-- {
		if g.Bool() {
			tx, kind = e.valid(s)
			kind += "-again"
		} else {
			tx, kind = e.mutant(s, other)
		}
		e.one(s, s.acc, tx, kind)
	}
}

// concurrent sends completions, and maybe the failure, at once.
func (e *env) concurrent(s, other *swp) {
	g, r := e.g, e.r
	before := len(e.d.Chain.Broadcasts())
	type msg struct{ tx, kind string }
	var ms []msg
	nv := 2 + g.Intn(4)
	for i := 0; i < nv; i++ {
		t, k := e.valid(s)
		ms = append(ms, msg{t, k})
	}
	for i := g.Intn(3); i > 0; i-- {
		t, k := e.mutant(s, other)
		ms = append(ms, msg{t, k})
	}
	withFail := g.Bool()
	flaky := g.Chance(3)
	var flip sync.Mutex
	calls := 0
	if flaky {
		e.d.Chain.SetFault(func(op, arg string) error {
			if op == "BroadcastTransaction" {
				flip.Lock()
				defer flip.Unlock()
				if calls++; calls == 1 {
					return errors.New("injected")
				}
			}
			return nil
		})
	}
	lag := g.Intn(400)
	as := make([]answer, len(ms))
	var failErr error
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range ms {
		wg.Add(1)
		i, us := i, g.Intn(600)
		go func() {
			defer wg.Done()
			<-start
			sim.Sleep(us)
			var m domain.SwapComplete = &pbswap.SwapComplete{Id: fmt.Sprint("k", i), AcceptId: s.acc, Transaction: ms[i].tx}
			as[i].ok = r.GuardV("complete", s.String()+" / concurrent "+ms[i].kind, func() {
				as[i].txid, as[i].fail, as[i].err = e.d.Trade.TradeComplete(ctx, &m, nil)
			})
		}()
	}
	failErr = errors.New("not sent")
	if withFail {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			sim.Sleep(lag)
			var f domain.SwapFail = &pbswap.SwapFail{Id: "f", MessageId: s.acc, FailureCode: 1, FailureMessage: "no"}
			_, _, failErr = e.d.Trade.TradeComplete(ctx, nil, &f)
		}()
	}
	ok, dump := sim.Within(60*time.Second, func() { close(start); wg.Wait() })
	e.d.Chain.SetFault(nil)
	if !ok {
		r.Violate("complete-hangs", "%s: concurrent completions hang\n%.2000s", s, dump)
		return
	}
	r.Count("concurrent", 1)
	accepted := 0
	for _, b := range e.d.Chain.Broadcasts()[before:] {
		e.judgeCast(s, b)
		if b.Err == "" {
			accepted++
		} else if accepted > 0 {
			r.Violate("broadcast-again", "%s: a concurrent completion broadcast again (%s)", s, b.Err)
		}
	}
	wins := 0
	var win answer
	for i, a := range as {
		if a.ok && a.err == nil && a.fail == nil {
			wins++
			win = a
			if ms[i].kind[:2] != "ok" && accepted == 0 {
				r.Violate("hostile-accepted", "%s: concurrent %s answered with success", s, ms[i].kind)
			}
		}
	}
	s.say("concurrently %d valid, %d others, fail %v (%v): %d succeeded, %d broadcast", nv, len(ms)-nv, withFail, failErr, wins, accepted)
	r.Eval(fmt.Sprint(s.kind, "concurrent", nv, len(ms), withFail, failErr == nil, wins, accepted, flaky))
	switch {
	case accepted > 1:
		r.Violate("broadcast-twice", "%s: broadcast %d times", s, accepted)
	case accepted == 1:
		if failErr == nil {
			r.Violate("failed-and-broadcast", "%s: the trade was both failed and broadcast", s)
			s.dead = "failed"
			return
		}
		if wins == 0 {
			r.Violate("broadcast-but-refused", "%s: broadcast, all were refused", s)
			return
		}
		e.completed(s, win)
	default:
		if wins > 0 {
			r.Violate("success-without-broadcast", "%s: %d successes, no broadcast", s, wins)
		}
		if failErr == nil {
			s.dead = "failed"
			r.Count("failed", 1)
		} else if !flaky {
			r.Violate("valid-refused", "%s: no valid concurrent completion was accepted", s)
		}
	}
}

func market(e *env, quote string) application.Market {
	if err := e.d.Up(); err != nil {
		panic(err)
	}
	if err := e.d.FundFee(200000, 200000, 200000, 200000, 200000, 200000, 200000, 200000); err != nil {
		panic(err)
	}
	bases, quotes := []uint64{}, []uint64{}
	for i := 0; i < 14; i++ {
		bases = append(bases, 3000000)
		quotes = append(quotes, 90000000)
	}
	m, _, err := e.d.OpenedMarket(quote, bases, quotes)
	if err != nil {
		panic(err)
	}
	return m
}

// walletKeys derives the signing keys of the market's addresses.
func (e *env) walletKeys(quote string) {
	_, acc := e.d.MarketOf(quote)
	l, err := e.d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, acc)
	if err != nil {
		panic(err)
	}
	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: sim.Words})
	if err != nil {
		panic(err)
	}
	for _, i := range l {
		k, pub, err := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: i.DerivationPath})
		if err != nil {
			panic(err)
		}
		if hex.EncodeToString(sim.P2WPKH(pub.SerializeCompressed())) != i.Script {
			panic("harness: derived key does not match the address")
		}
		e.own = append(e.own, ownKey{k, i.Address})
	}
}

func shard(r *sim.Rec, n int) {
	g := r.Rng("c04")
	quote := sim.NewAsset()
	dir := ""
	if n%4 == 0 {
		dir = filepath.Join(r.Dir, "db")
		os.MkdirAll(dir, 0755)
	}
	mk := func(c *sim.Chain) *sim.Daemon {
		d, err := sim.NewDaemon(sim.DaemonOpts{Chain: c, Dir: dir, NoListener: true, FewAddrs: 2, Expiry: time.Hour, Slippage: decimal.NewFromFloat(0.05)})
		if err != nil {
			panic(err)
		}
		return d
	}
	e := &env{r: r, d: mk(sim.NewChain()), g: g}
	m := market(e, quote)
	e.walletKeys(quote)
	var prev *swp
	// real swaps
	for i := 0; i < r.N(4, 22); i++ {
		s := e.real(m)
		e.play(s, prev)
		if s != nil {
			prev = s
		}
	}
	// a rejected proposal is a trade without accept
	e.d.Propose(m, application.TradeBuy, 1<<40, "poor")
	for i := 0; i < r.N(50, 500); i++ {
		s := e.synthetic(quote)
		if s == nil {
			return
		}
		e.play(s, prev)
		prev = s
		if i%40 == 7 && dir != "" {
			// the daemon restarts between accept and completion
			x := e.synthetic(quote)
			e.late.Wait()
			e.d.Close()
			e.d = mk(e.d.Chain)
			if err := e.d.Wallet.UnlockWallet(ctx, sim.Pass); err != nil {
				r.Inconclusive("unlock: %s", err)
				return
			}
			x.say("restart")
			r.Count("restarts", 1)
			x.mine = nil // the UTXO set is loaded again after unlocking
			e.play(x, prev)
			prev = nil
		}
		if g.Chance(10) {
			e.one(s, s.acc, s.full, "ok-late-again")
		}
	}
	e.late.Wait()
	e.d.Close()
}

func main() {
	sim.UseFastEncrypter()
	r := sim.Start("accepted swaps (explicit synthetic ones and real confidential ones), each completed by sequences of mutated, foreign, unsigned, valid, repeated and concurrent messages, with broadcast faults, failures, expiry and restarts; every broadcast attempt decoded and verified; distinct: swap kind x completion kind")
	r.Assume("the fake chain accepts what a node would accept")
	if sim.Shard() >= 0 {
		shard(r, sim.Shard())
		r.Finish()
	}
	if os.Getenv("ONE") != "" {
		o, _ := strconv.Atoi(os.Getenv("ONE"))
		shard(r, o)
		r.Finish()
	}
	r.RunShards(r.N(8, 24))
	r.NeedAtLeast("real", 16)
	r.NeedAtLeast("synthetic", 300)
	r.NeedAtLeast("completed", 200)
	r.NeedAtLeast("hostile", 1000)
	r.NeedAtLeast("concurrent", 40)
	r.NeedAtLeast("net-down", 40)
	r.NeedAtLeast("double-spent", 10)
	r.NeedAtLeast("failed", 10)
	r.NeedAtLeast("expired", 10)
	r.NeedAtLeast("restarts", 2)
	r.NeedAtLeast("broadcasts-verified", 200)
	r.Finish()
}
