// Monitor of C18: sends and withdrawals pay exactly what was asked.
package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

var ctx = context.Background()

type mkt struct {
	m   application.Market
	acc int
}

// payee is somebody the daemon is asked to pay.
type payee struct {
	addr, script string
	key          []byte // blinding key, nil when the address is unconfidential
}

type env struct {
	r      *sim.Rec
	g      *sim.Rng
	d      *sim.Daemon
	mks    []mkt
	assets []string // assets of the wallet account, LBTC first
	payees []payee
	locks  map[sim.Outpoint]uuid.UUID
	opened map[sim.Outpoint]sim.Opened
	log    []string
	name   string
}

func (e *env) bad(sig, f string, a ...interface{}) {
	h := e.log
	if len(h) > 6 {
		h = h[len(h)-6:]
	}
	e.r.Violate("C18/"+sig, "%s: %s; history: %s", e.name, fmt.Sprintf(f, a...), strings.Join(h, " ; "))
}

func (e *env) newPayee() payee {
	key, _ := btcec.NewPrivateKey(btcec.S256())
	bl, _ := btcec.NewPrivateKey(btcec.S256())
	p := payment.FromPublicKey(key.PubKey(), sim.Net, bl.PubKey())
	var a string
	var err error
	k := bl.Serialize()
	switch e.g.Intn(6) {
	case 0:
		a, err = p.ConfidentialPubKeyHash()
	case 1:
		var q *payment.Payment
		if q, err = payment.FromPayment(p); err == nil {
			a, err = q.ConfidentialScriptHash()
		}
	case 2:
		var q *payment.Payment
		if q, err = payment.FromPayment(p); err == nil {
			a, err = q.ConfidentialWitnessScriptHash()
		}
	default:
		a, err = p.ConfidentialWitnessPubKeyHash()
	}
	if err != nil {
		e.r.Inconclusive("payee: %s", err)
		return payee{}
	}
	s, err := address.ToOutputScript(a)
	if err != nil {
		e.r.Inconclusive("payee: %s", err)
	}
	return payee{a, hex.EncodeToString(s), k}
}

func (e *env) plainPayee() payee {
	key, _ := btcec.NewPrivateKey(btcec.S256())
	p := payment.FromPublicKey(key.PubKey(), sim.Net, nil)
	a, _ := p.WitnessPubKeyHash()
	s, _ := address.ToOutputScript(a)
	return payee{a, hex.EncodeToString(s), nil}
}

func op(u domain.Unspent) sim.Outpoint { return sim.Outpoint{Hash: u.TxID, Index: u.VOut} }

func (e *env) coins() map[sim.Outpoint]domain.Unspent {
	m := map[sim.Outpoint]domain.Unspent{}
	for _, u := range e.d.Unspents() {
		m[op(u)] = u
	}
	return m
}

func (e *env) info(acc int) map[string]domain.AddressInfo {
	l, err := e.d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(ctx, acc)
	if err != nil {
		e.r.Inconclusive("addresses: %s", err)
	}
	m := map[string]domain.AddressInfo{}
	for _, i := range l {
		m[i.Script] = i
	}
	return m
}

// ask is one request, of the wallet account or of a market.
type ask struct {
	mk   *mkt // nil: wallet account
	outs []application.TxOut
	rate int64
	push bool
	what string
}

func (e *env) do(a ask) (raw []byte, err error) {
	if a.mk == nil {
		return e.d.Wallet.SendToMany(ctx, application.SendToManyRequest{Outputs: a.outs, MillisatPerByte: a.rate, Push: a.push})
	}
	rq := application.WithdrawMarketReq{Market: a.mk.m, MillisatPerByte: a.rate, Push: a.push}
	for _, o := range a.outs {
		rq.Address = o.Address
		if o.Asset == sim.LBTC {
			rq.BalanceToWithdraw.BaseAmount = uint64(o.Value)
		} else {
			rq.BalanceToWithdraw.QuoteAmount = uint64(o.Value)
		}
	}
	return e.d.Operator.WithdrawMarketFunds(ctx, rq)
}

type before struct {
	coins  map[sim.Outpoint]domain.Unspent
	chain  map[sim.Outpoint]bool // unspent coins of the account on the chain
	mine   map[string]domain.AddressInfo
	fee    map[string]domain.AddressInfo
	others map[string]bool // every script of the daemon
	casts  int
}

func (e *env) snap(acc int) before {
	b := before{coins: e.coins(), mine: e.info(acc), fee: e.info(domain.FeeAccount), others: map[string]bool{}, chain: map[sim.Outpoint]bool{}, casts: len(e.d.Chain.Broadcasts())}
	for s := range b.mine {
		b.others[s] = true
		x, _ := hex.DecodeString(s)
		for _, o := range e.d.Chain.Unspent(x) {
			b.chain[o] = true
		}
	}
	for s := range b.fee {
		b.others[s] = true
	}
	return b
}

func sameCoin(a, b domain.Unspent) bool {
	lk := func(u domain.Unspent) string {
		if u.LockedBy == nil {
			return ""
		}
		return u.LockedBy.String()
	}
	return a.Value == b.Value && a.AssetHash == b.AssetHash && a.Spent == b.Spent && a.Confirmed == b.Confirmed && lk(a) == lk(b)
}

// account opens the transaction and adds it up; alone tells whether b is the
// state just before the request.
func (e *env) account(a ask, b before, raw []byte, alone bool) *transaction.Transaction {
	r := e.r
	bad := func(sig, f string, x ...interface{}) { e.bad(sig, "%s: %s", a.what, fmt.Sprintf(f, x...)) }
	tx, err := transaction.NewTxFromHex(hex.EncodeToString(raw))
	if err != nil {
		bad("malformed", "the transaction does not parse: %s", err)
		return nil
	}
	acc := domain.WalletAccount
	if a.mk != nil {
		acc = a.mk.acc
	}
	mine, fee := e.info(acc), e.info(domain.FeeAccount)
	net := map[string]*big.Int{} // what each account gives, by account and asset
	add := func(who, asset string, v uint64, sign int64) {
		k := who + " " + asset
		if net[k] == nil {
			net[k] = new(big.Int)
		}
		x := new(big.Int).SetUint64(v)
		net[k].Add(net[k], x.Mul(x, big.NewInt(sign)))
	}
	var prevs []*transaction.TxOutput
	seen := map[sim.Outpoint]bool{}
	for _, in := range tx.Inputs {
		o := sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}
		if seen[o] {
			bad("input-twice", "spends %s twice", o)
		}
		seen[o] = true
		out, by := e.d.Chain.Out(o)
		if out == nil {
			bad("input-unknown", "spends %s, unknown to the chain", o)
			return nil
		}
		if by != "" && by != tx.TxHash().String() {
			bad("input-spent", "spends %s, spent already", o)
		}
		prevs = append(prevs, out)
		s := hex.EncodeToString(out.Script)
		who := ""
		var key []byte
		if i, ok := fee[s]; ok {
			who, key = "fee", i.BlindingKey
		} else if i, ok := mine[s]; ok {
			who, key = "account", i.BlindingKey
		} else {
			bad("input-other-account", "spends %s that belongs to another account", o)
			continue
		}
		u, known := b.coins[o]
		if known && u.LockedBy != nil {
			bad("input-locked", "spends %s locked by a trade", o)
		}
		if alone && (who == "fee" || a.mk != nil) && (!known || u.Spent || !u.Confirmed) {
			bad("input-unavailable", "spends %s, not an available coin (known %v spent %v confirmed %v)", o, known, u.Spent, u.Confirmed)
		}
		if alone && who == "account" && a.mk == nil && !b.chain[o] {
			bad("input-unavailable", "spends %s, not an unspent coin of the wallet", o)
		}
		x, ok := sim.OpenOut(out, key)
		if !ok {
			bad("input-unopened", "the coin %s can not be opened", o)
			continue
		}
		add(who, x.Asset, x.Value, 1)
	}
	type want struct {
		script, asset string
		value         uint64
	}
	need := map[want]int{}
	keys := map[string][]byte{}
	for _, o := range a.outs {
		s, err := address.ToOutputScript(o.Address)
		if err != nil {
			bad("paid-invalid", "accepted the address %q", o.Address)
			return nil
		}
		h := hex.EncodeToString(s)
		for _, p := range e.payees {
			if p.script == h {
				keys[h] = p.key
			}
		}
		need[want{h, o.Asset, uint64(o.Value)}]++
	}
	fees, feeAmt := 0, uint64(0)
	changes := map[string]int{}
	for i, o := range tx.Outputs {
		s := hex.EncodeToString(o.Script)
		if s == "" {
			x, ok := sim.OpenOut(o, nil)
			if !ok || x.Asset != sim.LBTC {
				bad("fee-output", "output %d has no script and is no explicit LBTC fee", i)
				continue
			}
			fees++
			feeAmt += x.Value
			continue
		}
		if k, ok := keys[s]; ok {
			x, ok := sim.OpenOut(o, k)
			if !ok {
				bad("output-unopened", "output %d can not be opened by the payee", i)
				continue
			}
			if k != nil && !x.Conf {
				bad("output-revealed", "output %d to a confidential address is explicit", i)
			}
			w := want{s, x.Asset, x.Value}
			if need[w] > 0 {
				need[w]--
				add("account", x.Asset, x.Value, -1)
				continue
			}
			bad("paid-wrong", "output %d pays %d of %.8s, which was not asked", i, x.Value, x.Asset)
			continue
		}
		who := ""
		var key []byte
		if i, ok := fee[s]; ok {
			who, key = "fee", i.BlindingKey
		} else if i, ok := mine[s]; ok {
			who, key = "account", i.BlindingKey
		} else {
			bad("foreign-output", "output %d pays a script that was not asked and is not of the account", i)
			continue
		}
		x, ok := sim.OpenOut(o, key)
		if !ok {
			bad("change-unopened", "change %d can not be opened with the daemon's key", i)
			continue
		}
		if !x.Conf {
			bad("change-revealed", "change %d is explicit", i)
		}
		if x.Value == 0 {
			bad("change-empty", "change %d is of value zero", i)
		}
		if alone && b.others[s] {
			bad("change-reused", "change %d goes to an address handed out before", i)
		}
		changes[s]++
		if changes[s] > 1 {
			bad("change-reused", "two changes go to the same address")
		}
		r.Count("changes", 1)
		add(who, x.Asset, x.Value, -1)
	}
	for w, n := range need {
		if n > 0 {
			bad("not-paid", "%d times %d of %.8s to %.12s.. missing", n, w.value, w.asset, w.script)
		}
	}
	if fees != 1 || feeAmt == 0 {
		bad("fee-output", "%d fee outputs of %d", fees, feeAmt)
	}
	if fa := net["fee "+sim.LBTC]; fa == nil || fa.Cmp(new(big.Int).SetUint64(feeAmt)) != 0 {
		bad("fee-account", "the fee account gives %v, the network fee is %d", fa, feeAmt)
	}
	for k, v := range net {
		if k != "fee "+sim.LBTC && v.Sign() != 0 {
			bad("unbalanced", "%s of %.8s: %s unaccounted for", strings.Fields(k)[0], strings.Fields(k)[1], v)
		}
	}
	if err := sim.VerifyAmounts(prevs, tx.Outputs); err != nil {
		bad("amounts", "%s", err)
	}
	for i := range tx.Inputs {
		if err := sim.VerifyWitness(tx, i, prevs[i]); err != nil {
			bad("witness", "input %d: %s", i, err)
		}
	}
	rate := a.rate
	if rate < 100 {
		rate = 100
	}
	vs := tx.VirtualSize()
	least := uint64(float64(vs) * float64(rate) / 1000)
	most := uint64(float64(vs)*float64(rate)/1000*1.35) + 2
	if feeAmt < least || feeAmt > most {
		bad("fee-rate", "pays %d for %d vbytes at %d mSat/byte, expected %d to %d", feeAmt, vs, rate, least, most)
	}
	r.Sample(fmt.Sprintf("%s: %d in %d out, %d vbytes, fee %d", a.what, len(tx.Inputs), len(tx.Outputs), vs, feeAmt))
	return tx
}

// one makes one request and judges it.
func (e *env) one(a ask, fault bool) {
	r, d := e.r, e.d
	acc := domain.WalletAccount
	if a.mk != nil {
		acc = a.mk.acc
	}
	payable := e.payable(a)
	b := e.snap(acc)
	if fault {
		d.Chain.SetFault(func(o, arg string) error {
			if o == "BroadcastTransaction" || o == "Broadcast" {
				return errors.New("injected")
			}
			return nil
		})
	}
	var raw []byte
	var err error
	fin, stack := sim.Within(60*time.Second, func() {
		r.GuardV("C18/panic", a.what, func() { raw, err = e.do(a) })
	})
	d.Chain.SetFault(nil)
	if !fin {
		e.bad("hang", "%s does not return: %.600s", a.what, stack)
		return
	}
	if r.Violated() {
		return
	}
	sim.Quiesce()
	cs := d.Chain.Broadcasts()[b.casts:]
	e.log = append(e.log, fmt.Sprintf("%s=%v", a.what, err))
	if err != nil {
		r.Eval("refused:" + err.Error())
		r.Count("refused", 1)
		if os.Getenv("VERIF_LOG") != "" {
			fmt.Println(e.name, a.what, err)
		}
		sent := false
		for _, c := range cs {
			sent = sent || c.Err == ""
			if c.Err != "" && !c.Forced {
				r.Count("transactions the network refused", 1)
				r.Sample(a.what + ": " + c.Err)
			}
		}
		if sent {
			e.bad("refused-broadcast", "%s was refused (%v) and broadcast", a.what, err)
		}
		after := e.coins()
		for o, u := range b.coins {
			if v, ok := after[o]; !ok || !sameCoin(u, v) {
				e.bad("refused-changes", "%s was refused (%v) and changed the coin %s", a.what, err, o)
				return
			}
		}
		if len(after) != len(b.coins) {
			e.bad("refused-changes", "%s was refused (%v) and changed the coins", a.what, err)
		}
		if payable && !(fault && a.push) {
			e.bad("payable-refused", "%s was refused though the accounts can pay it: %v", a.what, err)
		}
		if fault {
			r.Count("refused with the broadcast failing", 1)
		}
		return
	}
	if fault && a.push {
		e.bad("unsent-reported", "%s was reported as done though it could not be broadcast", a.what)
		return
	}
	r.Eval(fmt.Sprintf("%s:%d", a.what, len(raw)))
	r.Count("done", 1)
	if payable {
		r.Count("plainly payable", 1)
	}
	if a.mk != nil {
		r.Count("withdrawals", 1)
	} else {
		r.Count("sends", 1)
	}
	tx := e.account(a, b, raw, true)
	if tx == nil || r.Violated() {
		return
	}
	txid := tx.TxHash().String()
	if a.push {
		if len(cs) != 1 || cs[0].Txid != txid || cs[0].Err != "" {
			e.bad("broadcast", "%s: %d broadcasts for it", a.what, len(cs))
			return
		}
	} else {
		if len(cs) != 0 {
			e.bad("broadcast", "%s: broadcast though it was not asked", a.what)
			return
		}
		if _, err := d.Chain.BroadcastTransaction(hex.EncodeToString(raw)); err != nil {
			e.bad("invalid", "%s: the network refuses it: %s", a.what, err)
			return
		}
		r.Count("not pushed", 1)
	}
	// the coin set after it
	after := e.coins()
	ins := map[sim.Outpoint]bool{}
	for _, in := range tx.Inputs {
		ins[sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}] = true
	}
	for o, u := range b.coins {
		w := u
		if ins[o] {
			w.Spent = true
		}
		v, ok := after[o]
		if !ok {
			e.bad("coin-lost", "%s: the coin %s is gone", a.what, o)
		} else if v.Spent != w.Spent {
			e.bad("spent-mark", "%s: the coin %s has spent=%v, spent by it: %v", a.what, o, v.Spent, ins[o])
		} else if !ins[o] && !sameCoin(u, v) {
			e.bad("coin-changed", "%s: the coin %s it does not spend changed", a.what, o)
		}
	}
	mine, fee := e.info(acc), e.info(domain.FeeAccount)
	for i, o := range tx.Outputs {
		s := hex.EncodeToString(o.Script)
		x, isFee := fee[s]
		y, isMine := mine[s]
		if !isFee && !isMine {
			continue
		}
		if !isFee {
			x = y
		}
		k := sim.Outpoint{Hash: txid, Index: uint32(i)}
		u, ok := after[k]
		if !ok {
			if isFee || a.mk != nil {
				e.bad("change-lost", "%s: the change %s was not recorded", a.what, k)
			}
			continue
		}
		w, _ := sim.OpenOut(o, x.BlindingKey)
		if u.Value != w.Value || u.AssetHash != w.Asset || u.Spent || u.Confirmed || u.LockedBy != nil || u.Address != x.Address {
			e.bad("change-recorded", "%s: the change %s of %d was recorded as %+v", a.what, k, w.Value, u)
		}
	}
	for o := range after {
		if _, ok := b.coins[o]; ok {
			continue
		}
		if o.Hash != txid {
			e.bad("coin-appeared", "%s: the coin %s appeared", a.what, o)
		}
	}
	// wallet balances less what was sent
	d.Chain.Confirm(txid)
	if a.push {
		if !sim.WaitFor(6*time.Second, func() bool {
			for o, u := range e.coins() {
				if o.Hash == txid && !u.Confirmed {
					return false
				}
			}
			return true
		}) {
			e.bad("change-unconfirmed", "%s: confirmed, but its change is not usable", a.what)
		}
	} else {
		if err := d.Operator.ReloadUtxos(ctx); err != nil {
			e.r.Inconclusive("reload: %s", err)
		}
	}
}

func (e *env) balance(acc int, asset string) (total uint64, list []uint64) {
	info := e.info(acc)
	if acc == domain.WalletAccount {
		for s, i := range info {
			b, _ := hex.DecodeString(s)
			for _, o := range e.d.Chain.Unspent(b) {
				x, ok := e.opened[o]
				if !ok {
					out, _ := e.d.Chain.Out(o)
					x, _ = sim.OpenOut(out, i.BlindingKey)
					e.opened[o] = x
				}
				if x.Asset == asset {
					total += x.Value
					list = append(list, x.Value)
				}
			}
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		return
	}
	for _, u := range e.coins() {
		if _, ok := info[hex.EncodeToString(u.ScriptPubKey)]; ok && u.AssetHash == asset && !u.Spent && u.Confirmed && u.LockedBy == nil {
			total += u.Value
			list = append(list, u.Value)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	return
}

// payable tells whether a request is well formed and its account and the fee
// account hold far more than it takes.
func (e *env) payable(a ask) bool {
	acc := domain.WalletAccount
	if a.mk != nil {
		acc = a.mk.acc
		for _, as := range []string{a.mk.m.BaseAsset, a.mk.m.QuoteAsset} {
			if t, _ := e.balance(acc, as); t == 0 {
				return false
			}
		}
	}
	if a.rate > 2000 || len(a.outs) == 0 {
		return false
	}
	sum := map[string]uint64{}
	for _, o := range a.outs {
		ok := false
		for _, p := range e.payees {
			ok = ok || p.addr == o.Address && p.key != nil
		}
		if !ok || len(o.Asset) != 64 || o.Value <= 0 || o.Value > 1<<50 {
			return false
		}
		sum[o.Asset] += uint64(o.Value)
	}
	n := uint64(1)
	for as, v := range sum {
		t, l := e.balance(acc, as)
		n += uint64(len(l))
		if t < v {
			return false
		}
	}
	rate := uint64(100)
	if a.rate > 100 {
		rate = uint64(a.rate)
	}
	fee, l := e.balance(domain.FeeAccount, sim.LBTC)
	vs := 1300*(2*uint64(len(a.outs))+2) + 150*(n+uint64(len(l)))
	return fee > 1000+2*vs*rate/1000
}

func (e *env) amount(total uint64, list []uint64) int64 {
	g := e.g
	if total == 0 {
		return int64(g.Range(1, 1000))
	}
	switch g.Intn(24) {
	case 0:
		return int64(total)
	case 1:
		return int64(total) + 1
	case 2:
		if len(list) > 0 {
			return int64(list[g.Intn(len(list))])
		}
		return int64(total) - 1
	case 3:
		return 1
	case 4:
		return int64(total) - int64(g.Range(1, 800))
	default:
		return int64(g.Range(1, total/8+1))
	}
}

func (e *env) pick() ask {
	g := e.g
	var a ask
	rates := []int64{0, 1, 99, 100, 100, 100, 101, 150, 250, 300, 500, 700, 1000, 2000}
	a.rate = rates[g.Intn(len(rates))]
	if g.Chance(20) {
		a.rate = []int64{-1, math.MinInt64, 100000, math.MaxInt64, 1 << 40}[g.Intn(5)]
	}
	a.push = !g.Chance(6)
	pay := func() payee {
		if g.Chance(4) {
			return e.payees[g.Intn(len(e.payees))]
		}
		p := e.newPayee()
		e.payees = append(e.payees, p)
		return p
	}
	if g.Bool() {
		mk := e.mks[g.Intn(len(e.mks))]
		a.mk = &mk
		p := pay()
		mode := g.Intn(3)
		for i, as := range []string{mk.m.BaseAsset, mk.m.QuoteAsset} {
			if mode == 2 || mode == i {
				t, l := e.balance(mk.acc, as)
				a.outs = append(a.outs, application.TxOut{Asset: as, Value: e.amount(t, l), Address: p.addr})
			}
		}
		a.what = fmt.Sprintf("withdraw(acc %d", mk.acc)
	} else {
		n := 1 + g.Intn(3)
		if g.Chance(6) {
			n = 4 + g.Intn(4)
		}
		p := pay()
		for i := 0; i < n; i++ {
			if !g.Chance(4) {
				p = pay()
			}
			as := e.assets[g.Intn(len(e.assets))]
			t, l := e.balance(domain.WalletAccount, as)
			a.outs = append(a.outs, application.TxOut{Asset: as, Value: e.amount(t, l), Address: p.addr})
		}
		if g.Chance(8) {
			a.outs = append(a.outs, a.outs[0]) // the same payment twice
		}
		if g.Chance(12) { // amounts adding up beyond 64 bits
			as := a.outs[0].Asset
			p := e.payees[0]
			a.outs = append(a.outs, application.TxOut{Asset: as, Value: math.MaxInt64, Address: p.addr},
				application.TxOut{Asset: as, Value: math.MaxInt64, Address: p.addr}, application.TxOut{Asset: as, Value: 2, Address: p.addr})
		}
		a.what = "send("
	}
	if g.Chance(10) && len(a.outs) > 0 {
		i := g.Intn(len(a.outs))
		switch g.Intn(7) {
		case 0:
			a.outs[i].Address = "garbage"
		case 1:
			p := e.plainPayee()
			e.payees = append(e.payees, p)
			a.outs[i].Address = p.addr
		case 2:
			if a.mk == nil {
				a.outs[i].Asset = a.outs[i].Asset[:10]
			}
		case 3:
			if a.mk == nil {
				a.outs[i].Asset = sim.NewAsset()
			}
		case 4:
			a.outs[i].Value = 0
		case 5:
			a.outs[i].Value = -a.outs[i].Value
		case 6:
			a.outs[i].Address = ""
		}
	}
	if a.mk != nil {
		var keep []application.TxOut
		for _, o := range a.outs {
			if o.Value != 0 {
				o.Address = a.outs[0].Address
				keep = append(keep, o)
			}
		}
		a.outs = keep
	}
	var l []string
	for _, o := range a.outs {
		l = append(l, fmt.Sprintf("%d of %.6s", o.Value, o.Asset))
	}
	a.what += fmt.Sprintf(" %s rate %d push %v)", strings.Join(l, "+"), a.rate, a.push)
	return a
}

// lockSome plays a trade: it reserves or frees some coins.
func (e *env) lockSome() {
	g := e.g
	if len(e.locks) > 0 && !g.Chance(4) {
		var ks []domain.UnspentKey
		for o := range e.locks {
			ks = append(ks, domain.UnspentKey{TxID: o.Hash, VOut: o.Index})
			delete(e.locks, o)
		}
		if _, err := e.d.Repo.UnspentRepository().UnlockUnspents(ctx, ks); err != nil {
			e.r.Inconclusive("unlock: %s", err)
		}
		return
	}
	id := uuid.New()
	var ks []domain.UnspentKey
	wallet := map[string]bool{} // no trade spends these
	for s := range e.info(domain.WalletAccount) {
		wallet[s] = true
	}
	all := e.coins()
	for o, u := range all {
		if !u.Spent && u.Confirmed && u.LockedBy == nil && !wallet[hex.EncodeToString(u.ScriptPubKey)] && g.Chance(6) {
			e.locks[o] = id
			ks = append(ks, u.Key())
		}
	}
	if len(ks) > 0 {
		if _, err := e.d.Repo.UnspentRepository().LockUnspents(ctx, ks, id); err != nil {
			e.r.Inconclusive("lock: %s", err)
		}
		e.r.Count("coins locked", int64(len(ks)))
	}
}

func (e *env) fundWallet(n int) {
	g := e.g
	var pays []sim.Pay
	addr := ""
	for i := 0; i < n; i++ {
		if addr == "" || g.Bool() {
			a, _, err := e.d.Wallet.GenerateAddressAndBlindingKey(ctx)
			if err != nil {
				e.r.Inconclusive("wallet address: %s", err)
				return
			}
			addr = a
		}
		pays = append(pays, sim.Pay{Addr: addr, Asset: e.assets[i%len(e.assets)], Value: g.Range(1000, 200000)})
	}
	e.d.Chain.MustFund(true, pays...)
}

func feeCoins(g *sim.Rng, n int) (l []uint64) {
	for i := 0; i < n; i++ {
		switch g.Intn(5) {
		case 0:
			l = append(l, g.Range(100, 700))
		case 1:
			l = append(l, g.Range(700, 1200))
		default:
			l = append(l, g.Range(1000, 20000))
		}
	}
	return
}

func run(r *sim.Rec, g *sim.Rng, shard, n int) {
	chain := sim.NewChain()
	chain.Explicit = shard%2 == 1
	d := sim.MustDaemon(sim.DaemonOpts{Chain: chain, FewAddrs: 3})
	defer d.Close()
	e := &env{r: r, g: g, d: d, locks: map[sim.Outpoint]uuid.UUID{}, opened: map[sim.Outpoint]sim.Opened{}, name: fmt.Sprintf("shard %d explicit %v", shard, chain.Explicit)}
	if err := d.FundFee(feeCoins(g, 8)...); err != nil {
		r.Inconclusive("fee account: %s", err)
		return
	}
	nm := 1
	if shard%4 == 2 {
		nm = 2
	}
	for i := 0; i < nm; i++ {
		var bs, qs []uint64
		for j := 0; j < 3; j++ {
			bs, qs = append(bs, g.Range(5000, 500000)), append(qs, g.Range(5000, 5000000))
		}
		mk, acc, err := d.OpenedMarket(sim.NewAsset(), bs, qs)
		if err != nil {
			r.Inconclusive("market: %s", err)
			return
		}
		e.mks = append(e.mks, mkt{mk, acc})
	}
	e.assets = []string{sim.LBTC, sim.NewAsset(), e.mks[0].m.QuoteAsset}
	e.fundWallet(6)
	e.payees = append(e.payees, e.newPayee())
	for i := 0; i < n && !r.Violated(); i++ {
		if len(e.locks) > 0 || g.Chance(3) {
			e.lockSome()
		}
		if t, _ := e.balance(domain.FeeAccount, sim.LBTC); t < 6000 {
			if err := d.FundFee(feeCoins(g, 4)...); err != nil {
				r.Inconclusive("fee account: %s", err)
				return
			}
		}
		if i%5 == 4 {
			e.fundWallet(3)
		}
		if i == n/2 {
			// the wallet's coins are tracked from here on
			if err := d.Operator.ReloadUtxos(ctx); err != nil {
				r.Inconclusive("reload: %s", err)
			}
			sim.Quiesce()
		}
		e.one(e.pick(), g.Chance(6))
	}
	if !r.Violated() {
		e.together()
	}
}

// together makes several requests at once.
func (e *env) together() {
	g, d, r := e.g, e.d, e.r
	if err := d.FundFee(4000, 5000, 6000, 7000); err != nil {
		r.Inconclusive("fee account: %s", err)
		return
	}
	e.fundWallet(4)
	b := e.snap(domain.WalletAccount)
	n := 4
	asks := make([]ask, n)
	raws := make([][]byte, n)
	errs := make([]error, n)
	for i := range asks {
		p := e.newPayee()
		e.payees = append(e.payees, p)
		a := ask{rate: 100, push: true}
		if i%2 == 0 {
			a.outs = []application.TxOut{{Asset: e.assets[g.Intn(3)], Value: int64(g.Range(100, 2000)), Address: p.addr}}
			a.what = "concurrent send"
		} else {
			a.mk = &e.mks[0]
			a.outs = []application.TxOut{{Asset: sim.LBTC, Value: int64(g.Range(100, 2000)), Address: p.addr}}
			a.what = "concurrent withdrawal"
		}
		asks[i] = a
	}
	var wg sync.WaitGroup
	for i := range asks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.GuardV("C18/panic", asks[i].what, func() { raws[i], errs[i] = e.do(asks[i]) })
		}(i)
	}
	if fin, st := sim.Within(120*time.Second, wg.Wait); !fin {
		e.bad("hang", "concurrent requests do not return: %.600s", st)
		return
	}
	if r.Violated() {
		return
	}
	sim.Quiesce()
	used := map[sim.Outpoint]int{}
	for i, raw := range raws {
		if errs[i] != nil {
			r.Count("concurrent refused", 1)
			if strings.Contains(errs[i].Error(), "spent") || strings.Contains(errs[i].Error(), "missing") {
				e.bad("double-spend", "%s: %s", asks[i].what, errs[i])
			}
			continue
		}
		r.Count("concurrent done", 1)
		tx := e.account(asks[i], b, raw, false)
		if tx == nil {
			return
		}
		for _, in := range tx.Inputs {
			o := sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}
			if j, ok := used[o]; ok {
				e.bad("double-spend", "requests %d and %d spend %s", j, i, o)
			}
			used[o] = i
		}
	}
	for o, u := range e.coins() {
		_, ok := used[o]
		if v, was := b.coins[o]; was && u.Spent != (v.Spent || ok) {
			e.bad("spent-mark", "after concurrent requests the coin %s has spent=%v, spent by one: %v", o, u.Spent, ok)
		}
	}
}

func main() {
	r := sim.Start("a reported send pays exactly what was asked and nothing else")
	sim.UseFastEncrypter()
	defer r.Finish()
	if sh := sim.Shard(); sh >= 0 {
		r.GuardV("C18/panic", "sends", func() { run(r, r.Rng("c18"), sh, 20) })
		return
	}
	r.RunShards(r.N(8, 64))
	r.NeedAtLeast("sends", 20)
	r.NeedAtLeast("withdrawals", 20)
	r.NeedAtLeast("refused", 10)
	r.NeedAtLeast("plainly payable", 30)
	r.NeedAtLeast("changes", 60)
	r.NeedAtLeast("coins locked", 5)
	r.NeedAtLeast("concurrent done", 8)
	r.Assume("The coins of the wallet account are those the explorer lists.")
}
