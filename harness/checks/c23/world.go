package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

// wAddr is an address of the generated chain.
type wAddr struct {
	addr   string
	script []byte
	key    []byte // blinding private key
	pub    []byte
	plain  string // its unconfidential form
}

type wOut struct {
	out   *transaction.TxOutput
	asset string
	value uint64
	conf  bool
	to    *wAddr
	spent bool
}

type wTx struct {
	tx        *transaction.Transaction
	id, hx    string
	outs      []*wOut
	confirmed bool
	height    int
	hash      string
	time      int64
}

type world struct {
	addrs  []*wAddr
	txs    []*wTx
	byID   map[string]*wTx
	height int
}

func newWorld(g *sim.Rng, nAddr, nTx int) *world {
	w := &world{byID: map[string]*wTx{}, height: 1 + g.Intn(2000000)}
	for i := 0; i < nAddr; i++ {
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), sim.RandBytes(32))
		_, spend := btcec.PrivKeyFromBytes(btcec.S256(), sim.RandBytes(32))
		p := payment.FromPublicKey(spend, sim.Net, pub)
		conf, err := p.ConfidentialWitnessPubKeyHash()
		if err != nil {
			panic("harness: " + err.Error())
		}
		plain, _ := p.WitnessPubKeyHash()
		w.addrs = append(w.addrs, &wAddr{addr: conf, plain: plain, script: p.WitnessScript, key: priv.Serialize(), pub: pub.SerializeCompressed()})
	}
	assets := []string{sim.LBTC, sim.NewAsset(), sim.NewAsset()}
	for i := 0; i < nTx; i++ {
		t := &wTx{tx: transaction.NewTx(2)}
		if g.Chance(4) {
			t.tx.Version = 1
		}
		if g.Chance(3) {
			t.tx.Locktime = uint32(g.Intn(1 << 30))
		}
		for k := 1 + g.Intn(3); k > 0; k-- {
			in := transaction.NewTxInput(sim.RandBytes(32), uint32(g.Intn(5)))
			if g.Bool() {
				in.Sequence = uint32(g.U64())
			}
			if g.Bool() {
				in.Witness = [][]byte{g.Bytes(71), g.Bytes(33)}
			} else if g.Bool() {
				in.Script = g.Bytes(1 + g.Intn(30))
			}
			t.tx.AddInput(in)
		}
		for k := 1 + g.Intn(4); k > 0; k-- {
			o := &wOut{asset: assets[g.Intn(len(assets))], value: 1 + g.Log(36)}
			if g.Chance(6) {
				o.value = 1 + g.Log(50)
			}
			if g.Chance(3) {
				o.value = uint64(g.Intn(100000000)) + 1
			}
			if !g.Chance(4) {
				o.to = w.addrs[g.Intn(len(w.addrs))]
				o.spent = g.Chance(4)
			}
			script, pub := g.Bytes(22), []byte(nil)
			if o.to != nil {
				script, pub = o.to.script, o.to.pub
			} else {
				_, p := btcec.PrivKeyFromBytes(btcec.S256(), sim.RandBytes(32))
				pub = p.SerializeCompressed()
			}
			if o.conf = g.Bool(); o.conf {
				out, err := sim.ConfOut(o.asset, o.value, script, pub)
				if err != nil {
					panic("harness: " + err.Error())
				}
				o.out = out
			} else {
				o.out = sim.ExplicitOut(o.asset, o.value, script)
			}
			t.outs = append(t.outs, o)
			t.tx.AddOutput(o.out)
		}
		fee := &wOut{asset: sim.LBTC, value: 1 + uint64(g.Intn(5000)), out: nil}
		fee.out = sim.ExplicitOut(fee.asset, fee.value, []byte{})
		t.outs = append(t.outs, fee)
		t.tx.AddOutput(fee.out)
		hx, err := t.tx.ToHex()
		if err != nil {
			panic("harness: " + err.Error())
		}
		t.hx, t.id = hx, t.tx.TxHash().String()
		if t.confirmed = g.Bool(); t.confirmed {
			t.height, t.hash, t.time = 1+g.Intn(w.height), g.Hex(32), int64(1600000000+g.Intn(1<<26))
		}
		w.txs = append(w.txs, t)
		w.byID[t.id] = t
	}
	return w
}

// coins are the unspent outputs of an address.
func (w *world) coins(a *wAddr) (ts []*wTx, idx []int) {
	for _, t := range w.txs {
		for i, o := range t.outs {
			if o.to == a && !o.spent {
				ts, idx = append(ts, t), append(idx, i)
			}
		}
	}
	return
}

// txsOf are the transactions paying an address.
func (w *world) txsOf(a *wAddr) []*wTx {
	res := []*wTx{}
	for _, t := range w.txs {
		for _, o := range t.outs {
			if o.to == a {
				res = append(res, t)
				break
			}
		}
	}
	return res
}

func (w *world) find(addr string) *wAddr {
	for _, a := range w.addrs {
		if a.addr == addr || a.plain == addr {
			return a
		}
	}
	return nil
}

// expectUtxo describes what a client must report for an output. nonce and
// proofs are part of it only for confidential ones.
func expectUtxo(t *wTx, i int, revealed, confirmed bool) string {
	o := t.outs[i]
	asset, value, vc, ac, extra := o.asset, o.value, "", "", ""
	if o.conf {
		vc, ac = hex.EncodeToString(o.out.Value), hex.EncodeToString(o.out.Asset)
		extra = hex.EncodeToString(o.out.Nonce) + "/" + digest(o.out.RangeProof) + "/" + digest(o.out.SurjectionProof)
		if !revealed {
			asset, value = "", 0
		}
	}
	return fmt.Sprintf("%s:%d %s %d vc=%s ac=%s script=%x conf=%v proofs=%s rev=%v", t.id, i, asset, value, vc, ac, o.out.Script, confirmed, extra, o.conf && revealed)
}

func describeUtxo(u explorer.Utxo) string {
	extra := ""
	if u.IsConfidential() {
		extra = hex.EncodeToString(u.Nonce()) + "/" + digest(u.RangeProof()) + "/" + digest(u.SurjectionProof())
	}
	return fmt.Sprintf("%s:%d %s %d vc=%s ac=%s script=%x conf=%v proofs=%s rev=%v", u.Hash(), u.Index(), u.Asset(), u.Value(), u.ValueCommitment(), u.AssetCommitment(), u.Script(), u.IsConfirmed(), extra, u.IsRevealed())
}

func digest(b []byte) string {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%d.%x", len(b), h)
}

// describeTx lists what a client reports of a transaction; full includes what
// only the raw transaction tells.
func describeTx(hash string, version, lock, size, weight int, confirmed bool, ins []*transaction.TxInput, outs []*transaction.TxOutput, full bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s v%d l%d s%d w%d c%v", hash, version, lock, size, weight, confirmed)
	for _, in := range ins {
		fmt.Fprintf(&b, " in %x:%d %x %d %x", in.Hash, in.Index, in.Script, in.Sequence, [][]byte(in.Witness))
	}
	for _, o := range outs {
		fmt.Fprintf(&b, " out %x %x %x", o.Asset, o.Value, o.Script)
		if full {
			fmt.Fprintf(&b, " %x %s %s", nz(o.Nonce), digest(o.RangeProof), digest(o.SurjectionProof))
		}
	}
	return b.String()
}

func nz(b []byte) []byte {
	if len(b) == 1 && b[0] == 0 {
		return nil
	}
	return b
}

func (t *wTx) expect(full bool, size int) string {
	return describeTx(t.id, int(t.tx.Version), int(t.tx.Locktime), size, t.tx.Weight(), t.confirmed, t.tx.Inputs, t.tx.Outputs, full)
}

func gotTx(t explorer.Transaction, full bool) string {
	return describeTx(t.Hash(), t.Version(), t.Locktime(), t.Size(), t.Weight(), t.Confirmed(), t.Inputs(), t.Outputs(), full)
}

func sorted(l []string) string {
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type js map[string]interface{}

func enc(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// diff is the first place where two listings differ.
func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("got %.400s want %.400s (%d/%d lines)", a, b, len(g), len(w))
		}
	}
	return "equal"
}
