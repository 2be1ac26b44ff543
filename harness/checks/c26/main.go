// Monitor of C26: transactions of the wallet library balance, unblind and
// verify; keys and paths are right; invalid input is an error.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil/base58"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- keys

func keys(r *sim.Rec, g *sim.Rng, n int) {
	for i := 0; i < n && !r.Violated(); i++ {
		words, err := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: []int{0, 128, 160, 192, 224, 256}[g.Intn(6)]})
		if err != nil {
			r.Violate("C26/mnemonic", "no mnemonic: %s", err)
			return
		}
		w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words})
		if err != nil {
			r.Violate("C26/mnemonic", "a generated mnemonic of %d words is refused: %s", len(words), err)
			return
		}
		ring := sim.NewKeyRing(words)
		for j := 0; j < 12; j++ {
			acc, ch, idx := uint32(g.Intn(20)), uint32(g.Intn(2)), uint32(g.Intn(40))
			switch g.Intn(5) {
			case 0:
				acc = uint32(g.Range(0, 1<<31-1))
			case 1:
				idx = uint32(g.Range(0, 1<<31-1))
			case 2:
				ch = uint32(g.Range(0, 1<<31-1))
			}
			hard := g.Chance(6)
			path := fmt.Sprintf("%d'/%d/%d", acc, ch, idx)
			p2 := idx
			if hard {
				path += "'"
				p2 += 1 << 31
			}
			if g.Chance(5) {
				path = "m/" + path
			}
			want := ring.PrivAt(acc+1<<31, ch, p2)
			prv, pub, err := w.DeriveSigningKeyPair(wallet.DeriveSigningKeyPairOpts{DerivationPath: path})
			if err != nil {
				r.Violate("C26/key", "no key at %s: %s", path, err)
				continue
			}
			_, wpub := btcec.PrivKeyFromBytes(btcec.S256(), want)
			if !bytes.Equal(prv.Serialize(), want) || !pub.IsEqual(wpub) {
				r.Violate("C26/key", "seed %v path %s: key %x, BIP32 gives %x", words, path, prv.Serialize(), want)
			}
			script := sim.P2WPKH(wpub.SerializeCompressed())
			bk := ring.BlindKey(script)
			bprv, bpub, err := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: script})
			_, wbpub := btcec.PrivKeyFromBytes(btcec.S256(), bk)
			if err != nil || !bytes.Equal(bprv.Serialize(), bk) || !bpub.IsEqual(wbpub) {
				r.Violate("C26/blinding-key", "seed %v script %x: blinding key is not that of SLIP77 (%v)", words, script, err)
			}
			a, s, err := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: path, Network: sim.Net})
			wa, _ := payment.FromPublicKey(wpub, sim.Net, wbpub).ConfidentialWitnessPubKeyHash()
			if err != nil || !bytes.Equal(s, script) || a != wa {
				r.Violate("C26/address", "seed %v path %s: address %s, expected %s (%v)", words, path, a, wa, err)
			}
			r.Eval("")
			r.Count("keys", 1)
		}
		// extended keys
		acc := uint32(g.Range(0, 1<<31-1))
		if xprv, err := w.ExtendedPrivateKey(wallet.ExtendedKeyOpts{Account: acc}); err != nil {
			r.Violate("C26/xkey", "extended key of account %d: %s", acc, err)
		} else if b := base58.Decode(xprv); len(b) != 82 || !bytes.Equal(b[46:78], ring.PrivAt(acc)) {
			r.Violate("C26/xkey", "seed %v account %d: extended key %s is not its own", words, acc, xprv)
		}
		if xpub, err := w.ExtendedPublicKey(wallet.ExtendedKeyOpts{Account: acc}); err != nil {
			r.Violate("C26/xkey", "extended key of account %d: %s", acc, err)
		} else {
			_, p := btcec.PrivKeyFromBytes(btcec.S256(), ring.PrivAt(acc))
			if b := base58.Decode(xpub); len(b) != 82 || !bytes.Equal(b[45:78], p.SerializeCompressed()) {
				r.Violate("C26/xkey", "seed %v account %d: extended public key %s is not its own", words, acc, xpub)
			}
		}
		if _, err := w.ExtendedPublicKey(wallet.ExtendedKeyOpts{Account: 1<<31 + uint32(g.Intn(5))}); err == nil {
			r.Violate("C26/xkey", "the hardened account is accepted as index")
		}
		// a wrong mnemonic is refused
		bad := append([]string{}, words...)
		bad[g.Intn(len(bad))] = []string{"zzz", "", "Abandonx"}[g.Intn(3)]
		if _, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: bad}); err == nil && strings.Join(bad, " ") != strings.Join(words, " ") {
			r.Violate("C26/mnemonic", "an invalid mnemonic is accepted: %v", bad)
		}
	}
}

// ---- paths

// plain reads a canonical decimal component.
func plain(s string) (v uint64, hard, ok bool) {
	if strings.HasSuffix(s, "'") {
		hard, s = true, s[:len(s)-1]
	}
	if s == "" || len(s) > 1 && s[0] == '0' {
		return 0, hard, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, hard, false
		}
	}
	if len(s) > 11 {
		return math.MaxUint64, hard, true
	}
	v, _ = strconv.ParseUint(s, 10, 64)
	return v, hard, true
}

func paths(r *sim.Rec, g *sim.Rng, n int) {
	comps := []string{"0", "1", "84", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999", "-1", "", " ", "m", "x", "0x10", "1'", "0'", "84'", "2147483647'", "2147483648'", "4294967295'", "-1'", "'", "''", "1''", "1.5", "1e3", "１", "\x00", "h", "1h", "0x", "_1", "99999999999999999999'"}
	for i := 0; i < n && !r.Violated(); i++ {
		k := g.Intn(6)
		var cs []string
		for j := 0; j < k; j++ {
			if g.Chance(3) {
				cs = append(cs, fmt.Sprint(g.Log(34)))
			} else {
				cs = append(cs, comps[g.Intn(len(comps))])
			}
		}
		s := strings.Join(cs, "/")
		abs := g.Bool()
		if abs {
			s = "m/" + s
		}
		var p wallet.DerivationPath
		var err error
		if !r.GuardV("C26/path", fmt.Sprintf("%q", s), func() { p, err = wallet.ParseDerivationPath(s) }) {
			return
		}
		r.Eval("")
		// what a strict reader says
		all, within := len(cs) > 0, true
		for _, c := range cs {
			v, hard, ok := plain(c)
			all = all && ok
			if ok && (hard && v > 1<<31-1 || !hard && v > math.MaxUint32) {
				within = false
			}
		}
		canon := all && (abs || len(cs) > 1)
		if canon && within && err != nil {
			r.Violate("C26/path", "%q is refused: %s", s, err)
		}
		if !within && err == nil {
			r.Violate("C26/path", "%q is accepted as %v", s, []uint32(p))
		}
		if err != nil {
			r.Count("paths refused", 1)
			continue
		}
		r.Count("paths accepted", 1)
		if len(p) != len(cs) && !(len(cs) > 1 && !abs && strings.TrimSpace(cs[0]) == "m" && len(p) == len(cs)-1) {
			r.Violate("C26/path", "%q is accepted with %d components", s, len(p))
			continue
		}
		for j, c := range cs[len(cs)-len(p):] {
			v, hard, ok := plain(c)
			if ok {
				if hard {
					v += 1 << 31
				}
				if uint64(p[j]) != v {
					r.Violate("C26/path", "%q has component %d = %d", s, j, p[j])
				}
				continue
			}
			// other integer literals are fine, anything else is not
			x := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(c), "'"))
			if _, good := new(big.Int).SetString(x, 0); !good {
				r.Violate("C26/path", "%q is accepted, %q is no number", s, c)
			}
		}
		q, err := wallet.ParseDerivationPath(p.String())
		if err != nil || fmt.Sprint([]uint32(q)) != fmt.Sprint([]uint32(p)) {
			r.Violate("C26/path", "%v prints as %q, which reads as %v %v", []uint32(p), p.String(), []uint32(q), err)
		}
	}
}

// ---- transactions

type payee struct {
	script []byte
	key    []byte // nil when unconfidential
	asset  string
	value  uint64
}

func newPayee(g *sim.Rng, asset string, v uint64) payee {
	k, _ := btcec.NewPrivateKey(btcec.S256())
	b, _ := btcec.NewPrivateKey(btcec.S256())
	p := payment.FromPublicKey(k.PubKey(), sim.Net, nil)
	var s []byte
	switch g.Intn(4) {
	case 0:
		s = p.Script
		a, _ := p.PubKeyHash()
		s, _ = address.ToOutputScript(a)
	case 1:
		q, _ := payment.FromPayment(p)
		a, _ := q.ScriptHash()
		s, _ = address.ToOutputScript(a)
	case 2:
		q, _ := payment.FromPayment(p)
		a, _ := q.WitnessScriptHash()
		s, _ = address.ToOutputScript(a)
	default:
		s = sim.P2WPKH(k.PubKey().SerializeCompressed())
	}
	x := payee{script: s, asset: asset, value: v}
	x.key = b.Serialize()
	return x
}

func pub(k []byte) []byte {
	if k == nil {
		return nil
	}
	_, p := btcec.PrivKeyFromBytes(btcec.S256(), k)
	return p.SerializeCompressed()
}

func dataOf(u explorer.Utxo) wallet.BlindingData {
	d := wallet.BlindingData{Asset: u.Asset(), Amount: u.Value(), AssetBlinder: u.AssetBlinder(), AmountBlinder: u.ValueBlinder()}
	if !u.IsConfidential() {
		d.AssetBlinder, d.AmountBlinder = make([]byte, 32), make([]byte, 32)
	}
	return d
}

// built is what the hostile part mutates.
type built struct {
	w                          *wallet.Wallet
	unblinded, blinded, signed string
	paths                      map[string]string
	inKeys, outKeys            map[string][]byte
	data                       map[int]wallet.BlindingData
	pubs                       [][]byte
	utxos                      []explorer.Utxo
}

func vsize(hx string) (int, int) {
	tx, err := transaction.NewTxFromHex(hx)
	if err != nil {
		return 0, 0
	}
	total := len(hx) / 2
	for _, in := range tx.Inputs {
		in.Witness, in.IssuanceRangeProof, in.InflationRangeProof, in.PeginWitness = nil, nil, nil, nil
	}
	for _, o := range tx.Outputs {
		o.RangeProof, o.SurjectionProof = nil, nil
	}
	base, err := tx.ToHex()
	if err != nil {
		return 0, 0
	}
	n := len(base) / 2
	if tx.HasWitness() { // written as empty
		n -= 4*len(tx.Inputs) + 2*len(tx.Outputs)
	}
	return (n*3 + total + 3) / 4, len(tx.Inputs)
}

func build(r *sim.Rec, g *sim.Rng, big bool) *built {
	words, err := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: 256})
	if err != nil {
		r.Violate("C26/mnemonic", "%s", err)
		return nil
	}
	w, _ := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words})
	ring := sim.NewKeyRing(words)
	chain := sim.NewChain()
	assets := []string{sim.LBTC}
	for i := g.Intn(3); i > 0; i-- {
		assets = append(assets, sim.NewAsset())
	}
	owner := map[string]*sim.KeyAt{}
	addr := map[string]bool{}
	var addrs []string
	var bks [][]byte
	fund := func(asset string, v uint64) {
		k := ring.At(g.Intn(2), g.Intn(2), g.Intn(4))
		owner[hex.EncodeToString(k.Script)] = k
		if !addr[k.Address] {
			addr[k.Address] = true
			addrs, bks = append(addrs, k.Address), append(bks, k.Blind)
		}
		if g.Chance(4) {
			if _, err := chain.FundOuts(true, sim.ExplicitOut(asset, v, k.Script)); err != nil {
				r.Inconclusive("fund: %s", err)
			}
			return
		}
		chain.MustFund(true, sim.Pay{Addr: k.Address, Asset: asset, Value: v})
	}
	ncoins := map[string]int{}
	total := map[string]uint64{}
	for _, a := range assets {
		n := 1 + g.Intn(4)
		if big {
			n = 6 + g.Intn(7)
		}
		for i := 0; i < n; i++ {
			v := 2000 + g.Range(0, 1000000)
			if g.Chance(8) {
				v = 2000 + g.Log(50)
			}
			fund(a, v)
			total[a] += v
		}
		ncoins[a] = n
	}
	for i := 0; i < 3; i++ { // for the fees
		fund(sim.LBTC, 60000+uint64(i))
	}
	us, err := chain.GetUnspentsForAddresses(addrs, bks)
	if err != nil {
		r.Inconclusive("coins: %s", err)
		return nil
	}
	var payees []payee
	var outs []*transaction.TxOutput
	changes := map[string]string{}
	for i, a := range assets {
		if a != sim.LBTC && g.Chance(4) {
			continue
		}
		left := total[a] * 9 / 10
		if big {
			left = total[a] - 1
		}
		for k := 1 + g.Intn(2); k > 0 && left > 300; k-- {
			v := 100 + g.Range(0, left-200)
			if big && k == 1 || g.Chance(6) {
				v = left
			}
			left -= v
			p := newPayee(g, a, v)
			payees = append(payees, p)
			x := sim.ExplicitOut(a, v, p.script)
			outs = append(outs, x)
		}
		changes[a] = fmt.Sprintf("%d'/1/%d", 5+i, g.Intn(50))
	}
	rate := []int{100, 101, 250, 1000, 1234, 3000}[g.Intn(6)]
	ctx := func() string {
		return fmt.Sprintf("seed %d: %d coins, %d payees, %d assets, rate %d", r.Seed, len(us), len(payees), len(assets), rate)
	}
	bad := func(sig, f string, x ...interface{}) {
		r.Violate("C26/"+sig, "%s: %s", ctx(), fmt.Sprintf(f, x...))
	}
	empty, err := w.CreateTx()
	if err != nil {
		bad("refused", "create: %s", err)
		return nil
	}
	res, err := w.UpdateTx(wallet.UpdateTxOpts{PsetBase64: empty, Unspents: us, Outputs: outs, ChangePathsByAsset: changes, MilliSatsPerBytes: rate, Network: sim.Net})
	if err != nil {
		bad("refused", "update: %s", err)
		return nil
	}
	used := map[sim.Outpoint]bool{}
	var rest []explorer.Utxo
	for _, u := range res.SelectedUnspents {
		o := sim.Outpoint{Hash: u.Hash(), Index: u.Index()}
		if used[o] {
			bad("coin-twice", "%s selected twice", o)
		}
		used[o] = true
	}
	for _, u := range us {
		if !used[sim.Outpoint{Hash: u.Hash(), Index: u.Index()}] {
			rest = append(rest, u)
		}
	}
	feePath := fmt.Sprintf("9'/1/%d", g.Intn(50))
	fres, err := w.UpdateTx(wallet.UpdateTxOpts{PsetBase64: res.PsetBase64, Unspents: rest, ChangePathsByAsset: map[string]string{sim.LBTC: feePath}, MilliSatsPerBytes: rate, Network: sim.Net, WantChangeForFees: true})
	if err != nil {
		r.Count("fees not covered", 1)
		return nil
	}
	sel := append(append([]explorer.Utxo{}, res.SelectedUnspents...), fres.SelectedUnspents...)
	ck := map[string][]byte{}
	for s, k := range res.ChangeOutputsBlindingKeys {
		ck[s] = k
	}
	for s, k := range fres.ChangeOutputsBlindingKeys {
		ck[s] = k
	}
	p, err := pset.NewPsetFromBase64(fres.PsetBase64)
	if err != nil {
		bad("malformed", "%s", err)
		return nil
	}
	// the changes pay the paths given, with their keys
	in, out := map[string]uint64{}, map[string]uint64{}
	var pubs [][]byte
	var want []payee
	for i, o := range p.UnsignedTx.Outputs {
		op, _ := sim.OpenOut(o, nil)
		out[op.Asset] += op.Value
		if i < len(payees) {
			x := payees[i]
			if op.Asset != x.asset || op.Value != x.value || !bytes.Equal(o.Script, x.script) {
				bad("output", "output %d is %d of %.6s", i, op.Value, op.Asset)
			}
			pubs = append(pubs, pub(x.key))
			want = append(want, x)
			continue
		}
		path := changes[op.Asset]
		if i == len(p.UnsignedTx.Outputs)-1 && op.Asset == sim.LBTC && len(fres.ChangeOutputsBlindingKeys) > 0 {
			path = feePath
		}
		var a, c, x int
		fmt.Sscanf(path, "%d'/%d/%d", &a, &c, &x)
		k := ring.At(a, c, x)
		if !bytes.Equal(o.Script, k.Script) {
			bad("change", "output %d of %.6s does not pay %s", i, op.Asset, path)
			return nil
		}
		if key := ck[hex.EncodeToString(o.Script)]; !bytes.Equal(key, pub(k.Blind)) {
			bad("change", "output %d comes with key %x, not that of its script", i, key)
			return nil
		}
		pubs = append(pubs, pub(k.Blind))
		want = append(want, payee{k.Script, k.Blind, op.Asset, op.Value})
		r.Count("changes", 1)
	}
	for _, u := range sel {
		in[u.Asset()] += u.Value()
	}
	out[sim.LBTC] += fres.FeeAmount
	for _, a := range assets {
		if in[a] != out[a] {
			bad("conservation", "%d of %.6s in, %d out, fee %d", in[a], a, out[a], fres.FeeAmount)
			return nil
		}
	}
	if len(p.UnsignedTx.Inputs) != len(sel) {
		bad("inputs", "%d inputs for %d coins", len(p.UnsignedTx.Inputs), len(sel))
		return nil
	}
	for i, x := range p.UnsignedTx.Inputs {
		if sim.InHash(x) != sel[i].Hash() || x.Index != sel[i].Index() {
			bad("inputs", "input %d is not the coin selected", i)
		}
	}
	b := &built{w: w, unblinded: fres.PsetBase64, paths: map[string]string{}, inKeys: map[string][]byte{}, outKeys: map[string][]byte{}, data: map[int]wallet.BlindingData{}, pubs: pubs, utxos: sel}
	anyKey := false
	for _, k := range pubs {
		anyKey = anyKey || k != nil
	}
	for _, u := range sel {
		k := owner[hex.EncodeToString(u.Script())]
		b.inKeys[hex.EncodeToString(k.Script)] = k.Blind
		b.paths[hex.EncodeToString(k.Script)] = fmt.Sprintf("%d'/%d/%d", k.Account, k.Chain, k.Index)
		b.data[len(b.data)] = dataOf(u)
	}
	for _, x := range want {
		b.outKeys[hex.EncodeToString(x.script)] = x.key
	}
	mode := g.Intn(2)
	if mode == 0 {
		b.blinded, err = w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{PsetBase64: b.unblinded, OutputBlindingKeys: pubs})
	} else {
		b.blinded, err = w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{PsetBase64: b.unblinded, InputBlindingData: b.data, OutputBlindingKeys: pubs})
	}
	if err != nil {
		if !anyKey {
			r.Count("nothing to blind", 1)
			return nil
		}
		bad("refused", "blind %d: %s", mode, err)
		return nil
	}
	final, err := w.UpdateTx(wallet.UpdateTxOpts{PsetBase64: b.blinded, Outputs: transactionutil.NewFeeOutput(fres.FeeAmount, sim.Net), Network: sim.Net})
	if err != nil {
		bad("refused", "fee: %s", err)
		return nil
	}
	b.signed, err = w.SignTransaction(wallet.SignTransactionOpts{PsetBase64: final.PsetBase64, DerivationPathMap: b.paths})
	if err != nil {
		bad("refused", "sign: %s", err)
		return nil
	}
	hx, txid, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: b.signed})
	if err != nil {
		bad("refused", "finalize: %s", err)
		return nil
	}
	tx, err := transaction.NewTxFromHex(hx)
	if err != nil || tx.TxHash().String() != txid {
		bad("malformed", "final transaction: %v", err)
		return nil
	}
	var prev []*transaction.TxOutput
	for i, x := range tx.Inputs {
		o, _ := chain.Out(sim.Outpoint{Hash: sim.InHash(x), Index: x.Index})
		prev = append(prev, o)
		if err := sim.VerifyWitness(tx, i, o); err != nil {
			bad("signature", "input %d: %s", i, err)
		}
	}
	if err := sim.VerifyAmounts(prev, tx.Outputs); err != nil {
		bad("amounts", "%s", err)
	}
	if len(tx.Outputs) != len(want)+1 {
		bad("outputs", "%d outputs, %d expected", len(tx.Outputs), len(want)+1)
		return nil
	}
	for i, x := range want {
		o := tx.Outputs[i]
		op, ok := sim.OpenOut(o, x.key)
		if !ok || op.Asset != x.asset || op.Value != x.value || op.Conf != (x.key != nil) || !bytes.Equal(o.Script, x.script) {
			bad("output", "output %d opens to %v %+v, expected %d of %.6s confidential %v", i, ok, op, x.value, x.asset, x.key != nil)
		}
		got, ok := transactionutil.UnblindOutput(o, x.key)
		if !ok || got.AssetHash != x.asset || got.Value != x.value {
			bad("unblind", "UnblindOutput of output %d says %v %+v, it is %d of %.6s", i, ok, got, x.value, x.asset)
		}
		if x.key != nil {
			if i == 0 {
				if _, ok := transactionutil.UnblindOutput(o, sim.RandBytes(32)); ok {
					bad("unblind", "output %d opens with a wrong key", i)
				}
			}
			r.Count("outputs unblinded", 1)
		}
		r.Eval("")
	}
	fee, _ := sim.OpenOut(tx.Outputs[len(want)], nil)
	if fee.Asset != sim.LBTC || fee.Value != fres.FeeAmount || len(tx.Outputs[len(want)].Script) != 0 {
		bad("fee", "fee output %+v, the fee is %d", fee, fres.FeeAmount)
	}
	vs, nin := vsize(hx)
	paid := float64(fee.Value) * 1000 / float64(rate)
	if paid+1000/float64(rate) < float64(vs) {
		bad("size", "%d inputs and %d outputs: the fee of %d pays for %.1f vbytes at %d msat, the transaction has %d", nin, len(tx.Outputs), fee.Value, paid, rate, vs)
	}
	if paid > float64(vs)*1.8+400 {
		bad("size", "%d inputs and %d outputs: the fee of %d pays for %.1f vbytes, the transaction has %d", nin, len(tx.Outputs), fee.Value, paid, vs)
	}
	r.Count("transactions", 1)
	r.Count("inputs", int64(nin))
	r.Eval(fmt.Sprintf("in%d out%d", nin, len(tx.Outputs)))
	if nin > 8 {
		r.Count("with more than 8 inputs", 1)
	}
	// what the two ways of reading a pset say
	if g.Chance(3) {
		i, o, err := wallet.ExtractBlindingDataFromTx(b.blinded, b.inKeys, b.outKeys)
		if err != nil {
			bad("extract", "%s", err)
		}
		for k, d := range b.data {
			if e := i[k]; e.Asset != d.Asset || e.Amount != d.Amount || !bytes.Equal(e.AssetBlinder, d.AssetBlinder) || !bytes.Equal(e.AmountBlinder, d.AmountBlinder) {
				bad("extract", "input %d: %+v, expected %+v", k, e, d)
			}
		}
		for k, x := range want {
			if e := o[k]; e.Asset != x.asset || e.Amount != x.value {
				bad("extract", "output %d: %+v, expected %d of %.6s", k, e, x.value, x.asset)
			}
		}
		r.Count("extractions", 1)
	}
	return b
}

// swap builds a transaction of two wallets with the swap functions.
func swap(r *sim.Rec, g *sim.Rng) {
	chain := sim.NewChain()
	type side struct {
		w    *wallet.Wallet
		ring *sim.KeyRing
		us   []explorer.Utxo
		ast  string
	}
	mk := func(asset string, vs ...uint64) *side {
		words, _ := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: 128})
		w, _ := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words})
		s := &side{w, sim.NewKeyRing(words), nil, asset}
		k := s.ring.At(0, 0, 0)
		for _, v := range vs {
			chain.MustFund(true, sim.Pay{Addr: k.Address, Asset: asset, Value: v})
		}
		us, err := chain.GetUnspents(k.Address, [][]byte{k.Blind})
		if err != nil {
			r.Inconclusive("swap coins: %s", err)
		}
		s.us = us
		return s
	}
	a1, a2 := sim.LBTC, sim.NewAsset()
	v1, v2 := 1000+g.Log(40), 1000+g.Log(45)
	x, y := mk(a1, v1, 500+g.Log(20)), mk(a2, v2+g.Log(30), 700)
	bad := func(sig, f string, z ...interface{}) {
		r.Violate("C26/swap-"+sig, "seed %d amounts %d %d: %s", r.Seed, v1, v2, fmt.Sprintf(f, z...))
	}
	p, _ := x.w.CreateTx()
	inK, outK := map[string][]byte{}, map[string][]byte{}
	sel := []explorer.Utxo{}
	for i, s := range []*side{x, y} {
		give, get, ga, ra := v1, v2, a1, a2
		if i == 1 {
			give, get, ga, ra = v2, v1, a2, a1
		}
		q, u, err := s.w.UpdateSwapTx(wallet.UpdateSwapTxOpts{PsetBase64: p, Unspents: s.us, InputAmount: give, InputAsset: ga, OutputAmount: get, OutputAsset: ra, OutputDerivationPath: "0'/0/1", ChangeDerivationPath: "0'/1/0", Network: sim.Net})
		if err != nil {
			bad("refused", "side %d: %s", i, err)
			return
		}
		p = q
		sel = append(sel, u...)
		for _, c := range [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}} {
			k := s.ring.At(c[0], c[1], c[2])
			inK[hex.EncodeToString(k.Script)], outK[hex.EncodeToString(k.Script)] = k.Blind, k.Blind
		}
	}
	pt, err := pset.NewPsetFromBase64(p)
	if err != nil {
		bad("malformed", "%s", err)
		return
	}
	type exp struct {
		asset string
		v     uint64
		sc    []byte
	}
	sums := map[string]uint64{}
	for _, u := range sel {
		sums[u.Asset()] += u.Value()
	}
	wantOuts := []exp{{a2, v2, x.ring.At(0, 0, 1).Script}}
	if c := sums[a1] - v1; c > 0 {
		wantOuts = append(wantOuts, exp{a1, c, x.ring.At(0, 1, 0).Script})
	}
	wantOuts = append(wantOuts, exp{a1, v1, y.ring.At(0, 0, 1).Script})
	if c := sums[a2] - v2; c > 0 {
		wantOuts = append(wantOuts, exp{a2, c, y.ring.At(0, 1, 0).Script})
	}
	if len(pt.UnsignedTx.Outputs) != len(wantOuts) {
		bad("outputs", "%d outputs, %d expected", len(pt.UnsignedTx.Outputs), len(wantOuts))
		return
	}
	var bl string
	if g.Bool() {
		bl, err = y.w.BlindSwapTransactionWithKeys(wallet.BlindSwapTransactionWithKeysOpts{PsetBase64: p, InputBlindingKeys: inK, OutputBlindingKeys: outK})
	} else {
		d := map[int]wallet.BlindingData{}
		for i, u := range sel {
			d[i] = dataOf(u)
		}
		bl, err = y.w.BlindSwapTransactionWithData(wallet.BlindSwapTransactionWithDataOpts{PsetBase64: p, InputBlindingData: d, OutputBlindingKeys: outK})
	}
	if err != nil {
		bad("refused", "blind: %s", err)
		return
	}
	bp, err := pset.NewPsetFromBase64(bl)
	if err != nil {
		bad("malformed", "%s", err)
		return
	}
	var prev []*transaction.TxOutput
	for _, in := range bp.UnsignedTx.Inputs {
		o, _ := chain.Out(sim.Outpoint{Hash: sim.InHash(in), Index: in.Index})
		prev = append(prev, o)
	}
	if err := sim.VerifyAmounts(prev, bp.UnsignedTx.Outputs); err != nil {
		bad("amounts", "%s", err)
	}
	for i, e := range wantOuts {
		o := bp.UnsignedTx.Outputs[i]
		op, ok := sim.OpenOut(o, outK[hex.EncodeToString(e.sc)])
		if !ok || !op.Conf || op.Asset != e.asset || op.Value != e.v || !bytes.Equal(o.Script, e.sc) {
			bad("output", "output %d opens to %v %d of %.6s, expected %d of %.6s", i, ok, op.Value, op.Asset, e.v, e.asset)
		}
	}
	// each signs its own inputs
	for i := range sel {
		s := x
		if sel[i].Asset() == a2 {
			s = y
		}
		bl, err = s.w.SignInput(wallet.SignInputOpts{PsetBase64: bl, InIndex: uint32(i), DerivationPath: "0'/0/0"})
		if err != nil {
			bad("refused", "sign %d: %s", i, err)
			return
		}
		if i == 0 && len(sel) > 1 {
			if _, _, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: bl}); err == nil {
				bad("unsigned", "a transaction with missing signatures is finalized")
			}
		}
	}
	hx, _, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: bl})
	if err != nil {
		bad("refused", "finalize: %s", err)
		return
	}
	tx, err := transaction.NewTxFromHex(hx)
	if err != nil {
		bad("malformed", "%s", err)
		return
	}
	for i := range tx.Inputs {
		if err := sim.VerifyWitness(tx, i, prev[i]); err != nil {
			bad("signature", "input %d: %s", i, err)
		}
	}
	// a change after signing is noticed
	sp, _ := pset.NewPsetFromBase64(bl)
	sp.UnsignedTx.Outputs[0].Script = append([]byte{}, sp.UnsignedTx.Outputs[1].Script...)
	if t, err := sp.ToBase64(); err == nil {
		if _, _, err := wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: t}); err == nil {
			bad("tampered", "a transaction changed after its signing is finalized")
		}
	}
	r.Count("swaps", 1)
	r.Eval(fmt.Sprintf("swap %d %d", len(sel), len(wantOuts)))
}

// ---- sizes

// sizes compares the estimate with transactions laid out by hand.
func sizes(r *sim.Rec, g *sim.Rng, n int) {
	for i := 0; i < n; i++ {
		var ins, outs []int
		tx := &transaction.Transaction{Version: 2}
		ni, no := 1+g.Intn(12), 1+g.Intn(6)
		if g.Chance(20) {
			ni = 200 + g.Intn(200)
		}
		for k := 0; k < ni; k++ {
			in := transaction.NewTxInput(sim.RandBytes(32), uint32(g.Intn(9)))
			sig := append(sim.RandBytes(71), 1)
			if g.Bool() {
				ins = append(ins, wallet.P2WPKH)
			} else {
				ins = append(ins, wallet.P2SH_P2WPKH)
				in.Script = append([]byte{22}, sim.P2WPKH(sim.RandBytes(33))...)
			}
			in.Witness = [][]byte{sig, sim.RandBytes(33)}
			tx.Inputs = append(tx.Inputs, in)
		}
		for k := 0; k < no; k++ {
			ty := []int{wallet.P2WPKH, wallet.P2WSH, wallet.P2PKH, wallet.P2SH_P2WPKH}[g.Intn(4)]
			l := map[int]int{wallet.P2WPKH: 22, wallet.P2WSH: 34, wallet.P2PKH: 25, wallet.P2SH_P2WPKH: 23}[ty]
			outs = append(outs, ty)
			used := ni
			if used > 3 {
				used = 3
			}
			tx.Outputs = append(tx.Outputs, &transaction.TxOutput{
				Asset: append([]byte{10}, sim.RandBytes(32)...), Value: append([]byte{8}, sim.RandBytes(32)...), Nonce: append([]byte{2}, sim.RandBytes(32)...),
				Script: sim.RandBytes(l), RangeProof: make([]byte, 4174), SurjectionProof: make([]byte, 2+(ni+7)/8+32*(1+used)),
			})
		}
		tx.Outputs = append(tx.Outputs, sim.ExplicitOut(sim.LBTC, 500, []byte{}))
		hx, err := tx.ToHex()
		if err != nil {
			r.Inconclusive("layout: %s", err)
			return
		}
		vs, _ := vsize(hx)
		est := wallet.EstimateTxSize(ins, nil, nil, outs, nil)
		r.Eval("")
		r.Count("sizes", 1)
		if est < vs {
			r.Violate("C26/estimate", "%d inputs %v, outputs %v: estimated %d, real %d", ni, short(ins), outs, est, vs)
			return
		}
	}
}

func short(l []int) string {
	s := fmt.Sprint(l)
	if len(s) > 60 {
		s = s[:60] + ".."
	}
	return s
}

// ---- hostile input

func hostile(r *sim.Rec, g *sim.Rng, b *built, n int, cgo bool) {
	junkKeys := func(m map[string][]byte) map[string][]byte {
		q := map[string][]byte{}
		for k, v := range m {
			switch g.Intn(8) {
			case 0:
			case 1:
				q[k] = nil
			case 2:
				q[k] = sim.RandBytes(g.Intn(64))
			default:
				q[k] = v
			}
		}
		return q
	}
	junkPaths := map[string]string{}
	for k, v := range b.paths {
		junkPaths[k] = v
	}
	for i := 0; i < n && !r.Violated(); i++ {
		src := []string{b.unblinded, b.blinded, b.signed}[g.Intn(3)]
		m := src
		if !g.Chance(5) {
			m = sim.MutatePset(g, src)
		}
		if g.Chance(30) {
			m = []string{"", "!", "AAAA", base64.StdEncoding.EncodeToString([]byte("pset\xff"))}[g.Intn(4)]
		}
		if sim.BoundedPset(m) != nil && m != "" {
			r.Count("unbounded", 1)
			if g.Chance(3) {
				continue
			}
			// harmless only if the declared sizes are small: left to the bounded ones
			continue
		}
		data := map[int]wallet.BlindingData{}
		for k, v := range b.data {
			switch g.Intn(10) {
			case 0:
			case 1:
				v.AssetBlinder = sim.RandBytes(g.Intn(40))
				data[k] = v
			case 2:
				v.Asset = []string{"", "zz", "00"}[g.Intn(3)]
				data[k] = v
			case 3:
				data[k+1] = v
			default:
				data[k] = v
			}
		}
		pubs := append([][]byte{}, b.pubs...)
		if g.Chance(3) && len(pubs) > 0 {
			pubs[g.Intn(len(pubs))] = sim.RandBytes(g.Intn(40))
		}
		if g.Chance(5) && len(pubs) > 0 {
			pubs = pubs[:len(pubs)-1]
		}
		call := g.Intn(9)
		name := []string{"BlindTransactionWithKeys", "BlindTransactionWithData", "BlindSwapTransactionWithKeys", "BlindSwapTransactionWithData", "SignTransaction", "SignInput", "FinalizeAndExtractTransaction", "ExtractBlindingDataFromTx", "UpdateTx"}[call]
		var err error
		f := func() {
			switch call {
			case 0:
				_, err = b.w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{PsetBase64: m, OutputBlindingKeys: pubs, Attempts: g.Intn(12) - 1})
			case 1:
				_, err = b.w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{PsetBase64: m, InputBlindingData: data, OutputBlindingKeys: pubs})
			case 2:
				_, err = b.w.BlindSwapTransactionWithKeys(wallet.BlindSwapTransactionWithKeysOpts{PsetBase64: m, InputBlindingKeys: junkKeys(b.inKeys), OutputBlindingKeys: junkKeys(b.outKeys)})
			case 3:
				_, err = b.w.BlindSwapTransactionWithData(wallet.BlindSwapTransactionWithDataOpts{PsetBase64: m, InputBlindingData: data, OutputBlindingKeys: junkKeys(b.outKeys)})
			case 4:
				ps := b.paths
				if g.Chance(3) {
					ps = map[string]string{}
					for k := range b.paths {
						ps[k] = []string{"", "0/0/0", "0'/0", "x'/0/0", "0'/0/0"}[g.Intn(5)]
					}
				}
				_, err = b.w.SignTransaction(wallet.SignTransactionOpts{PsetBase64: m, DerivationPathMap: ps})
			case 5:
				_, err = b.w.SignInput(wallet.SignInputOpts{PsetBase64: m, InIndex: uint32(g.Intn(4)), DerivationPath: []string{"0'/0/0", "0'/0/0", "0'/1/1", "", "1/1/1"}[g.Intn(5)]})
			case 6:
				var hx string
				hx, _, err = wallet.FinalizeAndExtractTransaction(wallet.FinalizeAndExtractTransactionOpts{PsetBase64: m})
				if err == nil && m != b.signed {
					// only what is still validly signed
					tx, e := transaction.NewTxFromHex(hx)
					if e != nil {
						r.Violate("C26/malformed", "finalized into garbage: %s", e)
						return
					}
					p, _ := pset.NewPsetFromBase64(m)
					for k := range tx.Inputs {
						prev := p.Inputs[k].WitnessUtxo
						if prev == nil {
							continue
						}
						if len(prev.Script) == 22 && prev.Script[0] == 0 {
							if e := sim.VerifyWitness(tx, k, prev); e != nil {
								r.Violate("C26/tampered", "finalized with an invalid signature of input %d: %s", k, e)
							}
						}
					}
				}
			case 7:
				_, _, err = wallet.ExtractBlindingDataFromTx(m, junkKeys(b.inKeys), junkKeys(b.outKeys))
			case 8:
				o := []*transaction.TxOutput{sim.ExplicitOut(sim.LBTC, g.Log(64), sim.RandBytes(22))}
				_, err = b.w.UpdateTx(wallet.UpdateTxOpts{PsetBase64: m, Unspents: b.utxos, Outputs: o, ChangePathsByAsset: map[string]string{sim.LBTC: "0'/1/1"}, MilliSatsPerBytes: 100 + g.Intn(5000), Network: sim.Net, WantChangeForFees: g.Bool()})
			}
		}
		start := time.Now()
		r.GuardV("C26/"+name, fmt.Sprintf("seed %d call %d, pset %.60s..", r.Seed, i, m), f)
		if d := time.Since(start); d > 60*time.Second {
			r.Violate("C26/slow", "%s takes %s", name, d)
		}
		r.Eval("")
		r.Count("hostile calls", 1)
		if err != nil {
			r.Count("hostile refused", 1)
		}
	}
	// outputs on their own
	p, err := pset.NewPsetFromBase64(b.blinded)
	if err != nil || len(p.UnsignedTx.Outputs) == 0 {
		return
	}
	for i := 0; i < n && !r.Violated(); i++ {
		o := *p.UnsignedTx.Outputs[g.Intn(len(p.UnsignedTx.Outputs))]
		cut := func(x []byte) []byte {
			switch g.Intn(5) {
			case 0:
				return nil
			case 1:
				if len(x) > 0 {
					return x[:g.Intn(len(x))]
				}
			case 2:
				y := append([]byte{}, x...)
				if len(y) > 0 {
					y[g.Intn(len(y))] ^= byte(1 + g.Intn(255))
				}
				return y
			case 3:
				return sim.RandBytes(g.Intn(40))
			}
			return x
		}
		switch g.Intn(5) {
		case 0:
			o.Asset = cut(o.Asset)
		case 1:
			o.Value = cut(o.Value)
		case 2:
			o.Nonce = cut(o.Nonce)
		case 3:
			o.RangeProof = cut(o.RangeProof)
		default:
			o.Script = cut(o.Script)
		}
		key := b.outKeys[hex.EncodeToString(p.UnsignedTx.Outputs[0].Script)]
		if g.Chance(3) {
			key = cut(key)
		}
		r.GuardV("C26/UnblindOutput", fmt.Sprintf("seed %d output %d: asset %x value %x nonce %x range proof of %d", r.Seed, i, o.Asset, o.Value, o.Nonce, len(o.RangeProof)), func() { transactionutil.UnblindOutput(&o, key) })
		r.Count("outputs thrown", 1)
	}
}

// layoutSize is the virtual size of a blinded and signed transaction with so
// many P2WPKH inputs and outputs besides the fee.
func layoutSize(ni, no int) uint64 {
	used := ni
	if used > 3 {
		used = 3
	}
	sp := 2 + (ni+7)/8 + 32*(1+used)
	base := 4 + 1 + 4 + 1 + 1 + ni*41 + no*(99+23) + 44
	wit := ni*(4+1+72+1+33) + no*(3+4174+1+sp) + 2
	return uint64((base*4 + wit + 3) / 4)
}

// make5 is so many P2WPKH.
func make5(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = wallet.P2WPKH
	}
	return l
}

// edges updates transactions whose coins cover the fees exactly, or almost.
func edges(r *sim.Rec, g *sim.Rng, n int) {
	words, err := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: 128})
	if err != nil {
		r.Violate("C26/mnemonic", "%s", err)
		return
	}
	w, _ := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words})
	script := sim.NewKeyRing(words).At(0, 0, 0).Script
	coin := func(v uint64) explorer.Utxo {
		return esplora.NewUnconfidentialWitnessUtxo(hex.EncodeToString(sim.RandBytes(32)), 0, v, sim.LBTC, script)
	}
	for i := 0; i < n && !r.Violated(); i++ {
		rate := []int{100, 137, 1000, 2500}[g.Intn(4)]
		v := 500 + g.Range(0, 5000)
		// only to choose values at the edge
		guess := func(ni, no int) uint64 {
			return uint64(wallet.EstimateTxSize(make5(ni), nil, nil, make5(no), nil)) * uint64(rate) / 1000
		}
		one := guess(1, 2)
		vals := []uint64{}
		near := func(x uint64) uint64 { return x + g.Range(0, 8) - 4 }
		switch g.Intn(5) {
		case 0: // the change is about the fee
			vals = append(vals, near(v+one))
		case 1:
			vals = append(vals, near(v+one), near(one))
		case 2: // another coin has to be added for the fee
			vals = append(vals, v, near(guess(2, 2)))
		case 3:
			d := 1 + g.Range(0, 50)
			vals = append(vals, v+d, near(guess(2, 2)-d), near(guess(3, 2)))
			vals = vals[:2+g.Intn(2)]
		default: // many small ones
			for k := 2 + g.Intn(8); k > 0; k-- {
				vals = append(vals, 100+g.Range(0, 2*one/3+5))
			}
			vals = append(vals, v)
		}
		var us []explorer.Utxo
		total := uint64(0)
		for _, x := range vals {
			us = append(us, coin(x))
			total += x
		}
		outs := []*transaction.TxOutput{sim.ExplicitOut(sim.LBTC, v, sim.P2WPKH(sim.RandBytes(33)))}
		ctx := fmt.Sprintf("coins %v for an output of %d at %d msat", vals, v, rate)
		empty, _ := w.CreateTx()
		var res *wallet.UpdateTxResult
		if !r.GuardV("C26/UpdateTx", ctx, func() {
			res, err = w.UpdateTx(wallet.UpdateTxOpts{PsetBase64: empty, Unspents: us, Outputs: outs, ChangePathsByAsset: map[string]string{sim.LBTC: "0'/1/0"}, MilliSatsPerBytes: rate, Network: sim.Net, WantChangeForFees: true})
		}) {
			return
		}
		r.Eval("")
		r.Count("edges", 1)
		if err != nil {
			if total > v+layoutSize(len(vals)+1, 3)*uint64(rate)/1000*3/2+702 { // a first estimate of 700 is looked for
				r.Violate("C26/refused", "%s: %s", ctx, err)
			}
			continue
		}
		r.Count("edges built", 1)
		p, err := pset.NewPsetFromBase64(res.PsetBase64)
		if err != nil {
			r.Violate("C26/malformed", "%s: %s", ctx, err)
			return
		}
		in, out := uint64(0), res.FeeAmount
		seen := map[string]bool{}
		for _, u := range res.SelectedUnspents {
			in += u.Value()
			if seen[u.Hash()] {
				r.Violate("C26/coin-twice", "%s: a coin is spent twice", ctx)
			}
			seen[u.Hash()] = true
		}
		for _, o := range p.UnsignedTx.Outputs {
			x, _ := sim.OpenOut(o, nil)
			out += x.Value
			if x.Value == 0 {
				r.Violate("C26/output", "%s: an output has no value", ctx)
			}
		}
		if in != out {
			r.Violate("C26/conservation", "%s: %d in, %d out, fee %d", ctx, in, out, res.FeeAmount)
		}
		ni, no := len(p.UnsignedTx.Inputs), len(p.UnsignedTx.Outputs)
		if need := layoutSize(ni, no) * uint64(rate) / 1000; res.FeeAmount < need {
			r.Violate("C26/size", "%s: %d inputs, %d outputs, fee %d, needs %d", ctx, ni, no, res.FeeAmount, need)
		} else if res.FeeAmount > (layoutSize(ni, no+1)+300)*uint64(rate)/1000+1 {
			r.Violate("C26/size", "%s: %d inputs, %d outputs, fee %d, needs %d", ctx, ni, no, res.FeeAmount, need)
		}
	}
}

// liars are outputs valid for consensus that say something else, or nothing, to
// who opens them.
func liars(r *sim.Rec, g *sim.Rng, n int) {
	for i := 0; i < n && !r.Violated(); i++ {
		asset, other := sim.NewAsset(), sim.LBTC
		k, _ := btcec.NewPrivateKey(btcec.S256())
		script := sim.P2WPKH(k.PubKey().SerializeCompressed())
		v := 1 + g.Log(40)
		var o *transaction.TxOutput
		var err error
		kind := g.Intn(3)
		switch kind {
		case 0:
			o, err = sim.LieOut(asset, other, v, script, k.PubKey().SerializeCompressed())
		case 1:
			o, err = sim.ShortOut(asset, v, script, k.PubKey().SerializeCompressed(), true)
		default:
			o, err = sim.ShortOut(asset, v, script, k.PubKey().SerializeCompressed(), false)
		}
		if err != nil {
			r.Inconclusive("crafted output: %s", err)
			return
		}
		r.GuardV("C26/UnblindOutput", fmt.Sprintf("crafted output of kind %d", kind), func() {
			got, ok := transactionutil.UnblindOutput(o, k.Serialize())
			if ok && got.AssetHash != asset {
				r.Violate("C26/unblind-lie", "an output of %.6s whose proof claims %.6s is revealed as %d of %.6s", asset, other, got.Value, got.AssetHash)
			}
			if ok {
				r.Count("crafted revealed", 1)
			}
		})
		r.Eval("")
		r.Count("crafted outputs", 1)
	}
}

func main() {
	r := sim.Start("transactions of the wallet library balance, open and verify; keys are those of the seed; garbage is an error")
	defer r.Finish()
	_ = txscript.SigHashAll
	if sh := sim.Shard(); sh >= 0 {
		g := r.Rng("c26")
		r.GuardV("C26/keys", "keys", func() { keys(r, g.Fork(), r.N(25, 200)) })
		r.GuardV("C26/paths", "paths", func() { paths(r, g.Fork(), r.N(20000, 200000)) })
		r.GuardV("C26/sizes", "sizes", func() { sizes(r, g.Fork(), r.N(40, 200)) })
		r.GuardV("C26/edges", "edges", func() { edges(r, g.Fork(), r.N(1500, 10000)) })
		r.GuardV("C26/liars", "crafted outputs", func() { liars(r, g.Fork(), r.N(6, 40)) })
		for i := 0; i < r.N(4, 30) && !r.Violated(); i++ {
			r.GuardV("C26/build", "building", func() {
				if b := build(r, g.Fork(), i == 0); b != nil {
					hostile(r, g.Fork(), b, r.N(60, 400), false)
				}
			})
			r.GuardV("C26/swap", "swap", func() { swap(r, g.Fork()) })
		}
		return
	}
	r.RunShards(r.N(8, 48))
	r.NeedAtLeast("transactions", 15)
	r.NeedAtLeast("swaps", 15)
	r.NeedAtLeast("edges built", 1000)
	r.NeedAtLeast("crafted outputs", 20)
	r.NeedAtLeast("keys", 500)
	r.NeedAtLeast("hostile calls", 500)
	r.NeedAtLeast("paths accepted", 1000)
	r.NeedAtLeast("with more than 8 inputs", 2)
	r.Assume("PSETs that declare more data than they hold are refused by transactionutil.CheckPset before they reach the wallet library.")
}
