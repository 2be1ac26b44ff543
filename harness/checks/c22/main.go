// Command c22 builds swap messages out of generated transactions and keys,
// parses them back, and answers them with right and wrong ones.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/btcsuite/btcutil/psbt"
	"github.com/golang/protobuf/proto"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/swap"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
)

type key struct {
	priv  *btcec.PrivateKey
	pub   []byte
	blind []byte
}

func newKey() key {
	p, _ := btcec.PrivKeyFromBytes(btcec.S256(), sim.RandBytes(32))
	return key{p, p.PubKey().SerializeCompressed(), sim.RandBytes(32)}
}

func (k key) script() []byte { return sim.P2WPKH(k.pub) }

func (k key) legacy() []byte {
	return append(append([]byte{0x76, 0xa9, 0x14}, btcutil.Hash160(k.pub)...), 0x88, 0xac)
}

func (k key) blindPub() []byte {
	_, p := btcec.PrivKeyFromBytes(btcec.S256(), k.blind)
	return p.SerializeCompressed()
}

// deal is a transaction of a swap with everything known about it.
type deal struct {
	b64     string
	prev    []*transaction.TxOutput
	keys    []key
	legacy  []bool
	inKeys  map[string][]byte
	outKeys map[string][]byte
	assets  [2]string
	outs    []out
	// prevCode makes signatures of other keys commit to the prevout's script
	prevCode bool
}

type out struct {
	asset string
	value uint64
	key   *key
}

type env struct {
	r      *sim.Rec
	g      *sim.Rng
	assets [2]string
	pool   map[string][]coin
}

func (e *env) bad(kind, format string, a ...interface{}) {
	e.r.Violate("C22/"+kind, format, a...)
}

type coin struct {
	k     key
	asset string
	value uint64
	out   *transaction.TxOutput
}

// output makes an output, or takes one of the confidential ones made before.
func (e *env) output(asset string, legacy bool, reuse *key) coin {
	if reuse == nil && !legacy && e.g.Chance(3) {
		l := e.pool[asset]
		if len(l) < 25 {
			c := coin{newKey(), asset, 1 + e.g.Log(49), nil}
			var err error
			if c.out, err = sim.ConfOut(asset, c.value, c.k.script(), c.k.blindPub()); err != nil {
				panic(err)
			}
			e.pool[asset] = append(l, c)
			l = e.pool[asset]
		}
		c := l[e.g.Intn(len(l))]
		o := *c.out
		c.out = &o
		return c
	}
	k := newKey()
	if reuse != nil {
		k = *reuse
	}
	scr := k.script()
	if legacy {
		scr = k.legacy()
	}
	v := 1 + e.g.Log(50)
	return coin{k, asset, v, sim.ExplicitOut(asset, v, scr)}
}

// deal makes up a transaction. Legacy inputs are left out if it has to be
// signed.
func (e *env) deal(signable bool) *deal {
	d := &deal{inKeys: map[string][]byte{}, outKeys: map[string][]byte{}, assets: e.assets}
	ins, outs := []*transaction.TxInput{}, []*transaction.TxOutput{}
	n := int(e.g.Range(1, 4))
	p := []pset.PInput{}
	for i := 0; i < n; i++ {
		var re *key
		if i > 0 && e.g.Chance(4) {
			re = &d.keys[0]
		}
		leg := !signable && e.g.Chance(6)
		c := e.output(d.assets[e.g.Intn(2)], leg, re)
		k, prev, s := c.k, c.out, c.out.Script
		in := pset.PInput{}
		ti := transaction.NewTxInput(sim.RandBytes(32), uint32(e.g.Intn(3)))
		if leg {
			t := transaction.NewTx(2)
			ti.Index = uint32(e.g.Intn(3))
			for j := 0; j < int(ti.Index)+1+e.g.Intn(2); j++ {
				if j == int(ti.Index) {
					t.Outputs = append(t.Outputs, prev)
				} else {
					t.Outputs = append(t.Outputs, sim.ExplicitOut(sim.LBTC, 5, newKey().script()))
				}
			}
			t.Inputs = append(t.Inputs, transaction.NewTxInput(sim.RandBytes(32), 0))
			h := t.TxHash()
			ti.Hash = h[:]
			in.NonWitnessUtxo = t
		} else {
			in.WitnessUtxo = prev
		}
		d.keys, d.prev, d.legacy = append(d.keys, k), append(d.prev, prev), append(d.legacy, leg)
		d.inKeys[hex.EncodeToString(s)] = k.blind
		ins, p = append(ins, ti), append(p, in)
	}
	for i := e.g.Range(1, 5); i > 0; i-- {
		c := e.output(d.assets[e.g.Intn(2)], false, nil)
		k := c.k
		outs = append(outs, c.out)
		d.outs = append(d.outs, out{c.asset, c.value, &k})
		d.outKeys[hex.EncodeToString(k.script())] = k.blind
	}
	if e.g.Bool() {
		v := 1 + e.g.Log(20)
		outs = append(outs, sim.ExplicitOut(sim.LBTC, v, nil))
		d.outs = append(d.outs, out{sim.LBTC, v, nil})
	}
	ptx, err := pset.New(ins, outs, 2, uint32(e.g.Intn(2)*e.g.Intn(1000)))
	if err != nil {
		panic(err)
	}
	for i := range p {
		ptx.Inputs[i].WitnessUtxo, ptx.Inputs[i].NonWitnessUtxo = p[i].WitnessUtxo, p[i].NonWitnessUtxo
	}
	if d.b64, err = ptx.ToBase64(); err != nil {
		panic(err)
	}
	return d
}

func (e *env) id() string {
	switch e.g.Intn(5) {
	case 0:
		return "swap-" + e.g.Hex(4)
	case 1:
		return "häßlich ✓ " + e.g.Hex(2)
	case 2:
		return string(bytes.Repeat([]byte("x"), 1+e.g.Intn(2000)))
	}
	return e.g.Hex(8)
}

func (e *env) amount() uint64 {
	switch e.g.Intn(8) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	}
	return e.g.Log(64)
}

func same(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

func drop(g *sim.Rng, m map[string][]byte) map[string][]byte {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	c := map[string][]byte{}
	if len(ks) == 0 {
		return c
	}
	min := ks[0]
	for _, k := range ks { // not the map's order
		if k < min {
			min = k
		}
	}
	for k, v := range m {
		if k != min {
			c[k] = v
		}
	}
	_ = g
	return c
}

// covers is whether a transaction can be read from a PSET, has all its prevouts,
// and the given keys, if any, are there for all inputs and outputs.
func covers(b64 string, in, outs map[string][]byte) error {
	if err := sim.BoundedPset(b64); err != nil {
		return err
	}
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return err
	}
	for i, x := range p.Inputs {
		prev := x.WitnessUtxo
		if prev == nil {
			n := p.UnsignedTx.Inputs[i].Index
			if x.NonWitnessUtxo == nil || uint64(n) >= uint64(len(x.NonWitnessUtxo.Outputs)) {
				return fmt.Errorf("no prevout of input %d", i)
			}
			prev = x.NonWitnessUtxo.Outputs[n]
		}
		if _, ok := in[hex.EncodeToString(prev.Script)]; in != nil && !ok {
			return fmt.Errorf("no key of input %d", i)
		}
	}
	for i, o := range p.UnsignedTx.Outputs {
		if _, ok := outs[hex.EncodeToString(o.Script)]; outs != nil && !ok && len(o.Script) > 0 {
			return fmt.Errorf("no key of output %d", i)
		}
	}
	return nil
}

// variant is a transaction with keys, made wrong in some way or not.
type variant struct {
	name     string
	b64      string
	in, out  map[string][]byte
	mustFail bool
}

func (e *env) variant(d *deal) variant {
	v := variant{"honest", d.b64, d.inKeys, d.outKeys, false}
	switch e.g.Intn(12) {
	case 0:
		v.name, v.in, v.out = "without keys", nil, nil
	case 1:
		v.name, v.in = "without input keys", nil
	case 2:
		v.name, v.out = "without output keys", nil
	case 3:
		v.name, v.in, v.mustFail = "without the key of an input", drop(e.g, d.inKeys), true
	case 4:
		v.name, v.out, v.mustFail = "without the key of an output", drop(e.g, d.outKeys), true
	case 5, 6:
		v.name, v.b64 = "mutated transaction", sim.MutatePset(e.g, d.b64)
		if v.b64 == "" {
			v.name, v.b64 = "honest", d.b64
		}
	case 7:
		v.name, v.b64, v.mustFail = "no transaction", []string{"", "cHNldP8=", "00", "%%%"}[e.g.Intn(4)], true
	}
	if !v.mustFail && covers(v.b64, v.in, v.out) != nil {
		v.mustFail = true
	}
	e.r.Eval(v.name)
	return v
}

func (e *env) request() {
	d := e.deal(false)
	v := e.variant(d)
	o := swap.RequestOpts{Id: e.id(), AssetToSend: d.assets[0], AssetToReceive: d.assets[1], AmountToSend: e.amount(), AmountToReceive: e.amount(),
		PsetBase64: v.b64, InputBlindingKeys: v.in, OutputBlindingKeys: v.out}
	if e.g.Chance(6) {
		o.Id = ""
	}
	var msg []byte
	var err error
	if !e.r.GuardV("C22", "request with "+v.name, func() { msg, err = swap.Request(o) }) {
		return
	}
	e.r.Count("requests", 1)
	if err != nil {
		e.r.Count("requests refused", 1)
		if v.name == "honest" || v.name == "without keys" || v.name == "without input keys" || v.name == "without output keys" {
			e.bad("request-refused", "a request %s is refused: %s", v.name, err)
		}
		return
	}
	if v.mustFail {
		e.bad("request-accepted", "a request is made of a transaction %s", v.name)
		return
	}
	m, err := domain.SwapParserManager.DeserializeRequest(msg)
	if err != nil {
		e.bad("request-unreadable", "a serialised request cannot be parsed: %s", err)
		return
	}
	if o.Id == "" && m.GetId() != "" {
		o.Id = m.GetId()
	}
	if m.GetId() != o.Id || m.GetAssetP() != o.AssetToSend || m.GetAssetR() != o.AssetToReceive ||
		m.GetAmountP() != o.AmountToSend || m.GetAmountR() != o.AmountToReceive || m.GetTransaction() != o.PsetBase64 ||
		!same(m.GetInputBlindingKey(), v.in) {
		e.bad("request-changed", "a serialised request parses to another one (%s)", v.name)
	}
	e.keys(m.GetOutputBlindingKey(), v.in, v.out, "a request")
	e.r.Count("requests parsed back", 1)
}

// keys checks the output keys of a parsed request.
func (e *env) keys(got, in, outs map[string][]byte, what string) {
	if same(got, outs) {
		return
	}
	if same(got, in) {
		e.bad("request-output-keys-are-input-keys", "%s parses back with its input keys in place of its output keys", what)
		return
	}
	e.bad("request-output-keys", "%s parses back with other output keys", what)
}

func (e *env) accept() {
	d := e.deal(false)
	v := e.variant(d)
	req := &pbswap.SwapRequest{Id: e.id(), Transaction: d.b64}
	raw, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	broken := e.g.Chance(8)
	if broken {
		raw = append([]byte{0x0a, 0x7f}, sim.RandBytes(e.g.Intn(60))...)
		broken = proto.Unmarshal(raw, &pbswap.SwapRequest{}) != nil
		if !broken {
			return
		}
	}
	var id string
	var msg []byte
	if !e.r.GuardV("C22", "accept with "+v.name, func() {
		id, msg, err = swap.Accept(swap.AcceptOpts{Message: raw, PsetBase64: v.b64, InputBlindingKeys: v.in, OutputBlindingKeys: v.out})
	}) {
		return
	}
	e.r.Count("accepts", 1)
	if err != nil {
		e.r.Count("accepts refused", 1)
		if !v.mustFail && v.name != "mutated transaction" && !broken {
			e.bad("accept-refused", "an accept %s is refused: %s", v.name, err)
		}
		return
	}
	if v.mustFail || broken {
		e.bad("accept-accepted", "an accept is made of a transaction %s (broken request %v)", v.name, broken)
		return
	}
	m, err := domain.SwapParserManager.DeserializeAccept(msg)
	if err != nil {
		e.bad("accept-unreadable", "a serialised accept cannot be parsed: %s", err)
		return
	}
	if id == "" || m.GetId() != id || m.GetRequestId() != req.Id {
		e.bad("accept-ids", "accept %q says it is %q and answers %q, the request was %q", id, m.GetId(), m.GetRequestId(), req.Id)
	}
	if m.GetTransaction() != v.b64 || !same(m.GetInputBlindingKey(), v.in) || !same(m.GetOutputBlindingKey(), v.out) {
		e.bad("accept-changed", "a serialised accept parses to another one (%s)", v.name)
	}
	e.r.Count("accepts parsed back", 1)
}

// sign adds the signatures of the given inputs to a PSET.
func sign(b64 string, d *deal, how func(i int) (key, txscript.SigHashType, bool)) *pset.Pset {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		panic(err)
	}
	for i := range p.Inputs {
		k, ht, ok := how(i)
		if !ok {
			continue
		}
		code := k.legacy()
		if d.prevCode {
			code = d.keys[i].legacy()
		}
		h := p.UnsignedTx.HashForWitnessV0(i, code, d.prev[i].Value, ht)
		s, err := k.priv.Sign(h[:])
		if err != nil {
			panic(err)
		}
		p.Inputs[i].PartialSigs = []*psbt.PartialSig{{PubKey: k.pub, Signature: append(s.Serialize(), byte(ht))}}
		if ht != txscript.SigHashAll {
			p.Inputs[i].SighashType = ht
		}
	}
	return p
}

func rawTx(p *pset.Pset) string {
	tx := *p.UnsignedTx
	tx.Inputs = nil
	for i, in := range p.UnsignedTx.Inputs {
		c := *in
		if len(p.Inputs[i].PartialSigs) > 0 {
			s := p.Inputs[i].PartialSigs[0]
			c.Witness = [][]byte{s.Signature, s.PubKey}
		}
		tx.Inputs = append(tx.Inputs, &c)
	}
	tx.Flag = 1
	h, err := tx.ToHex()
	if err != nil {
		panic(err)
	}
	return h
}

// judge tells whether a transaction is the accepted one, fully signed.
func judge(cand string, d *deal) error {
	var tx *transaction.Transaction
	var err error
	if _, herr := hex.DecodeString(cand); herr == nil {
		if err := sim.BoundedTx(cand); err != nil {
			return err
		}
		tx, err = transaction.NewTxFromHex(cand)
	} else {
		if err := sim.BoundedPset(cand); err != nil {
			return err
		}
		var p *pset.Pset
		if p, err = pset.NewPsetFromBase64(cand); err != nil {
			return err
		}
		if err = pset.FinalizeAll(p); err != nil {
			return err
		}
		tx, err = pset.Extract(p)
	}
	if err != nil {
		return err
	}
	a, _ := pset.NewPsetFromBase64(d.b64)
	if len(tx.Inputs) != len(a.UnsignedTx.Inputs) {
		return fmt.Errorf("other inputs")
	}
	if tx.TxHash() != a.UnsignedTx.TxHash() {
		return fmt.Errorf("another transaction")
	}
	for i, in := range tx.Inputs {
		if len(in.Witness) != 2 || len(in.Witness[0]) < 9 {
			return fmt.Errorf("input %d not signed", i)
		}
		s, pub := in.Witness[0], in.Witness[1]
		if !bytes.Equal(pub, d.keys[i].pub) {
			return fmt.Errorf("input %d signed with another key", i)
		}
		sg, err := btcec.ParseDERSignature(s[:len(s)-1], btcec.S256())
		if err != nil {
			return err
		}
		h := tx.HashForWitnessV0(i, d.keys[i].legacy(), d.prev[i].Value, txscript.SigHashType(s[len(s)-1]))
		if !sg.Verify(h[:], d.keys[i].priv.PubKey()) {
			return fmt.Errorf("signature of input %d is wrong", i)
		}
	}
	return nil
}

// candidate is an answer to an accept.
func (e *env) candidate(d *deal) (string, string) {
	g := e.g
	all := func(i int) (key, txscript.SigHashType, bool) { return d.keys[i], txscript.SigHashAll, true }
	form := func(p *pset.Pset) string {
		if g.Bool() {
			return rawTx(p)
		}
		s, err := p.ToBase64()
		if err != nil {
			panic(err)
		}
		return s
	}
	n := g.Intn(len(d.keys))
	switch g.Intn(16) {
	case 0:
		return "a signature missing", form(sign(d.b64, d, func(i int) (key, txscript.SigHashType, bool) {
			return d.keys[i], txscript.SigHashAll, i != n
		}))
	case 1:
		k := newKey()
		l := *d
		l.prevCode = g.Bool()
		return "signed with another key", form(sign(d.b64, &l, func(i int) (key, txscript.SigHashType, bool) {
			if i == n {
				return k, txscript.SigHashAll, true
			}
			return all(i)
		}))
	case 2: // the right key on the wrong place of another transaction
		p := sign(d.b64, d, all)
		s := p.Inputs[n].PartialSigs[0]
		s.Signature = append([]byte{}, s.Signature...)
		s.Signature[8+g.Intn(len(s.Signature)-9)] ^= 1 << uint(g.Intn(8))
		return "a signature corrupted", form(p)
	case 3:
		s := &transaction.TxOutput{}
		p, _ := pset.NewPsetFromBase64(d.b64)
		*s = *p.UnsignedTx.Outputs[0]
		s.Asset, s.Value = sim.AssetBytes(d.assets[0]), sim.ExplicitValue(1+g.Log(40))
		s.Nonce, s.RangeProof, s.SurjectionProof = []byte{0}, nil, nil
		p.UnsignedTx.Outputs[0] = s
		return "an amount changed", form(resign(p, d, all))
	case 4:
		p, _ := pset.NewPsetFromBase64(d.b64)
		p.UnsignedTx.Outputs[0].Script = newKey().script()
		return "an output redirected", form(resign(p, d, all))
	case 5:
		p, _ := pset.NewPsetFromBase64(d.b64)
		switch g.Intn(4) {
		case 0:
			p.UnsignedTx.Version++
		case 1:
			p.UnsignedTx.Locktime++
		case 2:
			p.UnsignedTx.Inputs[n].Sequence--
		default:
			p.UnsignedTx.Inputs[n].Index ^= 1
		}
		return "a field changed", form(resign(p, d, all))
	case 6:
		o := e.deal(true)
		return "another transaction", form(sign(o.b64, o, func(i int) (key, txscript.SigHashType, bool) { return o.keys[i], txscript.SigHashAll, true }))
	case 7, 8:
		p := sign(d.b64, d, all)
		s, _ := p.ToBase64()
		if m := sim.MutatePset(g, s); m != "" {
			return "mutated", m
		}
		return "honest", s
	case 9:
		h, _ := hex.DecodeString(rawTx(sign(d.b64, d, all)))
		for k := 1 + g.Intn(3); k > 0 && len(h) > 0; k-- {
			switch g.Intn(3) {
			case 0:
				h[g.Intn(len(h))] = byte(g.Intn(256))
			case 1:
				h = h[:g.Intn(len(h))]
			default:
				h[g.Intn(len(h))] ^= 1
			}
		}
		return "mutated hex", hex.EncodeToString(h)
	case 10:
		ht := []txscript.SigHashType{txscript.SigHashNone, txscript.SigHashSingle, txscript.SigHashAll | txscript.SigHashAnyOneCanPay}[g.Intn(3)]
		return "other hash type", form(sign(d.b64, d, func(i int) (key, txscript.SigHashType, bool) { return d.keys[i], ht, true }))
	case 11:
		// the prevouts of the completion lie so that the signature fits
		p, _ := pset.NewPsetFromBase64(d.b64)
		l := *d
		l.prev = append([]*transaction.TxOutput{}, d.prev...)
		if p.Inputs[n].WitnessUtxo == nil {
			return "nothing", ""
		}
		w := *p.Inputs[n].WitnessUtxo
		k := d.keys[n]
		if g.Bool() {
			w.Value = sim.ExplicitValue(1 + g.Log(30))
		} else {
			k = newKey()
			w.Script = k.script()
		}
		w.Nonce, w.RangeProof, w.SurjectionProof = []byte{0}, nil, nil
		if len(w.Value) == 33 {
			w.Value = sim.ExplicitValue(77)
		}
		if len(w.Asset) == 33 && w.Asset[0] != 1 {
			w.Asset = sim.AssetBytes(d.assets[0])
		}
		l.prev[n] = &w
		p.Inputs[n].WitnessUtxo = &w
		b, _ := p.ToBase64()
		q := sign(b, &l, func(i int) (key, txscript.SigHashType, bool) {
			if i == n {
				return k, txscript.SigHashAll, true
			}
			return all(i)
		})
		return "a prevout forged", form(q)
	}
	return "honest", form(sign(d.b64, d, all))
}

func resign(p *pset.Pset, d *deal, how func(int) (key, txscript.SigHashType, bool)) *pset.Pset {
	b, err := p.ToBase64()
	if err != nil {
		panic(err)
	}
	return sign(b, d, how)
}

func (e *env) complete() {
	d := e.deal(true)
	acc := &pbswap.SwapAccept{Id: e.id(), RequestId: e.id(), Transaction: d.b64, InputBlindingKey: d.inKeys, OutputBlindingKey: d.outKeys}
	raw, err := proto.Marshal(acc)
	if err != nil {
		panic(err)
	}
	for k := 0; k < 4; k++ {
		name, cand := e.candidate(d)
		e.r.Eval("complete " + name)
		var id string
		var msg []byte
		if !e.r.GuardV("C22", "complete "+name, func() { id, msg, err = swap.Complete(swap.CompleteOpts{Message: raw, Transaction: cand}) }) {
			return
		}
		e.r.Count("completes", 1)
		var j error
		func() {
			defer func() {
				if x := recover(); x != nil {
					j = fmt.Errorf("unusable: %v", x)
				}
			}()
			j = judge(cand, d)
		}()
		if err != nil {
			e.r.Count("completes refused", 1)
			if name == "honest" {
				e.bad("complete-refused", "an honest completion is refused: %s", err)
			}
			continue
		}
		if j != nil {
			e.bad("complete-accepted", "completion accepted: %s (%s)", name, j)
			continue
		}
		m, err := domain.SwapParserManager.DeserializeComplete(msg)
		if err != nil {
			e.bad("complete-unreadable", "a serialised complete cannot be parsed: %s", err)
			continue
		}
		if id == "" || m.GetId() != id || m.GetAcceptId() != acc.Id || m.GetTransaction() != cand {
			e.bad("complete-changed", "complete %q says it is %q and completes %q, the accept was %q", id, m.GetId(), m.GetAcceptId(), acc.Id)
		}
		e.r.Count("completes parsed back", 1)
	}
}

func (e *env) fail() {
	id, text := e.id(), e.id()
	code := e.g.Intn(3)
	if e.g.Chance(5) {
		code = e.g.Intn(1 << 20)
	}
	var fid string
	var msg []byte
	var err error
	if !e.r.GuardV("C22", "fail", func() {
		fid, msg, err = swap.Fail(swap.FailOpts{MessageID: id, ErrCode: swap.ErrCode(code), ErrMessage: text})
	}) {
		return
	}
	if err != nil {
		e.bad("fail-refused", "no fail message can be made: %s", err)
		return
	}
	e.checkFail(msg, fid, id, code, text)
	e.r.Count("fails", 1)
}

func (e *env) checkFail(msg []byte, fid, id string, code int, text string) {
	m, err := domain.SwapParserManager.DeserializeFail(msg)
	if err != nil {
		e.bad("fail-unreadable", "a serialised fail cannot be parsed: %s", err)
		return
	}
	if fid == "" || m.GetId() != fid || m.GetMessageId() != id || int(m.GetFailureCode()) != code || !bytes.HasSuffix([]byte(m.GetFailureMessage()), []byte(text)) {
		e.bad("fail-changed", "fail %q says it is %q and refuses %q with %d (%q), it refuses %q with %d", fid, m.GetId(), m.GetMessageId(), m.GetFailureCode(), m.GetFailureMessage(), id, code)
	}
}

// trade runs a trade through its states and checks the messages it keeps.
func (e *env) trade() {
	d := e.deal(true)
	req := &pbswap.SwapRequest{Id: e.id(), AssetP: d.assets[0], AssetR: d.assets[1], AmountP: 1 + e.g.Log(50), AmountR: 1 + e.g.Log(50),
		Transaction: d.b64, InputBlindingKey: d.inKeys, OutputBlindingKey: d.outKeys}
	v := e.variant(d)
	req.Transaction, req.InputBlindingKey, req.OutputBlindingKey = v.b64, v.in, v.out
	t := domain.NewTrade()
	var ok bool
	var err error
	if !e.r.GuardV("C22", "propose with "+v.name, func() { ok, err = t.Propose(req, d.assets[1], 25, 0, 0, sim.RandBytes(33)) }) {
		return
	}
	if err != nil {
		e.bad("propose", "propose gives an error: %s", err)
		return
	}
	if !ok {
		if v.name == "honest" {
			e.bad("propose", "an honest proposal is refused")
		}
		if t.SwapFailMessage() == nil || !t.IsRejected() || len(t.SwapRequest.Message) > 0 {
			e.bad("refused-proposal", "a refused proposal keeps no fail message")
			return
		}
		e.checkFail(t.SwapFail.Message, t.SwapFail.ID, req.Id, int(swap.ErrCodeInvalidSwapRequest), "")
		e.r.Count("proposals refused", 1)
		if x, err := t.Accept(d.b64, d.inKeys, d.outKeys, 60); x && err == nil {
			e.bad("refused-proposal", "a refused proposal is accepted afterwards")
		}
		return
	}
	if v.mustFail {
		e.bad("propose", "a trade is proposed with a transaction %s", v.name)
		return
	}
	m := t.SwapRequestMessage()
	if t.SwapRequest.ID != req.Id || m.GetId() != req.Id || m.GetAmountP() != req.AmountP || m.GetAmountR() != req.AmountR ||
		m.GetAssetP() != req.AssetP || m.GetAssetR() != req.AssetR || m.GetTransaction() != req.Transaction || !same(m.GetInputBlindingKey(), v.in) {
		e.bad("stored-request", "the trade keeps another request than the proposed one")
	}
	e.keys(m.GetOutputBlindingKey(), v.in, v.out, "the stored request of a trade")
	w := e.variant(d)
	if !e.r.GuardV("C22", "accept of a trade with "+w.name, func() { ok, err = t.Accept(w.b64, w.in, w.out, 3600) }) {
		return
	}
	if err != nil {
		e.bad("accept", "accepting gives an error: %s", err)
		return
	}
	if !ok {
		if w.name == "honest" {
			e.bad("accept", "an honest accept is refused")
		}
		e.checkFail(t.SwapFail.Message, t.SwapFail.ID, req.Id, int(swap.ErrCodeRejectedSwapRequest), "")
		if t.SwapAccept.ID != "" || t.TxID != "" || t.SwapAcceptMessage() != nil {
			e.bad("refused-accept", "a refused accept leaves its id or transaction")
		}
		e.r.Count("accepts of trades refused", 1)
		return
	}
	if w.mustFail {
		e.bad("accept", "a trade is accepted with a transaction %s", w.name)
		return
	}
	a := t.SwapAcceptMessage()
	if a.GetId() != t.SwapAccept.ID || a.GetId() == "" || a.GetRequestId() != req.Id || a.GetTransaction() != w.b64 ||
		!same(a.GetInputBlindingKey(), w.in) || !same(a.GetOutputBlindingKey(), w.out) {
		e.bad("stored-accept", "the trade keeps another accept than the one made for request %q: it names %q", req.Id, a.GetRequestId())
	}
	if w.name == "mutated transaction" {
		return
	}
	p, _ := pset.NewPsetFromBase64(w.b64)
	if h := p.UnsignedTx.TxHash(); t.TxID != h.String() {
		e.bad("txid", "the trade's transaction is %s, the accepted one %s", t.TxID, h.String())
	}
	name, cand := e.candidate(d)
	was := *t
	defer func() {
		for _, x := range [][2]domain.Swap{{was.SwapRequest, t.SwapRequest}, {was.SwapAccept, t.SwapAccept}} {
			if x[0].ID != x[1].ID || !bytes.Equal(x[0].Message, x[1].Message) {
				e.bad("rewritten", "answering swap %q replaces it with %q in its trade", x[0].ID, x[1].ID)
			}
		}
		if t.TxID != was.TxID {
			e.bad("rewritten", "completing a trade changes its transaction's id")
		}
	}()
	var res *domain.CompleteResult
	if !e.r.GuardV("C22", "complete of a trade "+name, func() { res, err = t.Complete(cand) }) {
		return
	}
	if err != nil {
		e.bad("complete", "completing gives an error: %s", err)
		return
	}
	var j error
	func() {
		defer func() {
			if x := recover(); x != nil {
				j = fmt.Errorf("unusable: %v", x)
			}
		}()
		j = judge(cand, d)
	}()
	if !res.OK {
		if name == "honest" {
			e.bad("complete", "an honest completion is refused")
		}
		e.checkFail(t.SwapFail.Message, t.SwapFail.ID, a.GetId(), int(swap.ErrCodeFailedToComplete), "")
		if t.SwapComplete.ID != "" || t.IsCompleted() {
			e.bad("refused-complete", "a refused completion completes the trade")
		}
		e.r.Count("completions of trades refused", 1)
		return
	}
	if j != nil {
		e.bad("complete", "a trade is completed with: %s (%s)", name, j)
		return
	}
	c := t.SwapCompleteMessage()
	if c.GetId() != t.SwapComplete.ID || c.GetAcceptId() != a.GetId() || c.GetTransaction() != cand {
		e.bad("stored-complete", "the trade keeps another complete than its own: it names %q, the accept is %q", c.GetAcceptId(), a.GetId())
	}
	tx, err := transaction.NewTxFromHex(t.TxHex)
	if err != nil || tx.TxHash().String() != t.TxID || judge(t.TxHex, d) != nil {
		e.bad("completed-tx", "the final transaction of a trade is not the accepted one signed")
	}
	e.r.Count("trades completed", 1)
}

// hostile hands rubbish to everything that parses.
func (e *env) hostile() {
	d := e.deal(true)
	raw, _ := proto.Marshal(&pbswap.SwapAccept{Id: "a", RequestId: "b", Transaction: sim.MutatePset(e.g, d.b64), InputBlindingKey: d.inKeys, OutputBlindingKey: d.outKeys})
	for k := e.g.Intn(3); k > 0 && len(raw) > 0; k-- {
		raw[e.g.Intn(len(raw))] = byte(e.g.Intn(256))
	}
	name, cand := e.candidate(d)
	e.r.Eval("hostile")
	e.r.GuardV("C22", "complete of a mutated accept, "+name, func() {
		if _, _, err := swap.Complete(swap.CompleteOpts{Message: raw, Transaction: cand}); err == nil && judge(cand, d) != nil {
			var a pbswap.SwapAccept
			if proto.Unmarshal(raw, &a) == nil && a.GetTransaction() == d.b64 {
				e.bad("complete-accepted", "completion accepted: %s", name)
			}
		}
	})
	e.r.GuardV("C22", "parsers", func() {
		for _, b := range [][]byte{raw, nil, sim.RandBytes(1 + e.g.Intn(300))} {
			domain.SwapParserManager.DeserializeRequest(b)
			domain.SwapParserManager.DeserializeAccept(b)
			domain.SwapParserManager.DeserializeComplete(b)
			domain.SwapParserManager.DeserializeFail(b)
			swap.Accept(swap.AcceptOpts{Message: b, PsetBase64: d.b64})
		}
	})
	e.r.Count("hostile messages", 1)
}

// final checks the validation of completed PSETs.
func (e *env) final() {
	d := e.deal(true)
	p, _ := pset.NewPsetFromBase64(d.b64)
	sum := map[string]uint64{}
	for i, o := range d.prev {
		if x, ok := sim.OpenOut(o, d.keys[i].blind); ok {
			sum[x.Asset] += x.Value
		} else {
			panic("own input does not open")
		}
	}
	has := func(asset string, v uint64) bool {
		for i, o := range d.outs {
			if o.asset == asset && o.value == v && len(p.UnsignedTx.Outputs) > i {
				return true
			}
		}
		return false
	}
	req := &pbswap.SwapRequest{AssetP: d.assets[0], AssetR: d.assets[1]}
	pick := func(asset string) uint64 {
		l := []uint64{1 + e.g.Log(40)}
		for _, o := range d.outs {
			if o.asset == asset {
				l = append(l, o.value, o.value)
			}
		}
		return l[e.g.Intn(len(l))]
	}
	req.AmountP, req.AmountR = pick(req.AssetP), pick(req.AssetR)
	want := sum[req.AssetP] >= req.AmountP && sum[req.AssetR] >= req.AmountR && has(req.AssetP, req.AmountP) && has(req.AssetR, req.AmountR)
	var err error
	b64 := d.b64
	mut := e.g.Chance(4)
	if mut {
		if b64 = sim.MutatePset(e.g, d.b64); b64 == "" || sim.BoundedPset(b64) != nil {
			return
		}
	}
	if !e.r.GuardV("C22", "validation", func() {
		err = swap.ValidateCompletePset(swap.ValidateCompletePsetOpts{PsetBase64: b64, InputBlindingKeys: d.inKeys, OutputBlindingKeys: d.outKeys, SwapRequest: req})
	}) || mut {
		return
	}
	e.r.Eval("validated")
	e.r.Count(fmt.Sprintf("final transactions matching %v", want), 1)
	if (err == nil) != want {
		e.bad("validate", "a final transaction that matches its request: %v, validation says: %v", want, err)
	}
}

func shard(r *sim.Rec) {
	e := &env{r: r, g: r.Rng("c22"), pool: map[string][]coin{}}
	e.assets = [2]string{sim.LBTC, e.g.Hex(32)}
	for i := 0; i < r.N(280, 4000); i++ {
		e.request()
		e.accept()
		e.complete()
		e.fail()
		e.trade()
		e.hostile()
		e.final()
	}
}

func main() {
	r := sim.Start("every swap message made parses back to itself, names the one it answers, and is made only of what fits")
	defer r.Finish()
	if sim.Shard() >= 0 {
		r.GuardV("C22/harness", "monitor", func() { shard(r) })
		return
	}
	r.RunShards(r.N(8, 40))
	r.NeedAtLeast("requests parsed back", 200)
	r.NeedAtLeast("accepts parsed back", 200)
	r.NeedAtLeast("completes parsed back", 200)
	r.NeedAtLeast("completes refused", 200)
	r.NeedAtLeast("trades completed", 100)
	r.NeedAtLeast("final transactions matching true", 50)
}
