// Monitor of C12: no request crashes or hangs the daemon, and one answered
// with an error changes nothing.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

var ctx = context.Background()

// stream is the server side of a streaming call.
type stream struct {
	grpc.ServerStream
	mu   sync.Mutex
	out  []proto.Message
	fail int // Send fails from this reply on, -1 never
}

func (s *stream) Context() context.Context { return ctx }
func (s *stream) send(m proto.Message) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail >= 0 && len(s.out) >= s.fail {
		return errors.New("transport is closing")
	}
	s.out = append(s.out, m)
	return nil
}

type proposeStream struct{ *stream }

func (s proposeStream) Send(m *pbt.TradeProposeReply) error { return s.send(m) }

type completeStream struct{ *stream }

func (s completeStream) Send(m *pbt.TradeCompleteReply) error { return s.send(m) }

type initStream struct{ *stream }

func (s initStream) Send(m *pbw.InitWalletReply) error { return s.send(m) }

type method struct {
	name string
	h    reflect.Value
	req  reflect.Type
	kind string // "" or the kind of stream
}

type env struct {
	r     *sim.Rec
	g     *sim.Rng
	d     *sim.Daemon
	state string
	ms    []method
	log   []string

	quotes  []string
	addrs   []string // ours
	foreign []string
	txids   []string
	ids     []string // of trades, accepts, hooks
	psets   []string
	scripts []string
	open    []open
	tr      *sim.Trader
	seq     int
	initOK  bool
}

type open struct {
	p *sim.Proposal
}

func (e *env) bad(sig, f string, a ...interface{}) {
	h := e.log
	if len(h) > 8 {
		h = h[len(h)-8:]
	}
	e.r.Violate("C12/"+sig, "%s: %s; calls: %s", e.state, fmt.Sprintf(f, a...), strings.Join(h, " ; "))
}

func (e *env) handlers() {
	e.ms = nil
	add := func(h interface{}) {
		v := reflect.ValueOf(h)
		for i := 0; i < v.NumMethod(); i++ {
			m := v.Type().Method(i)
			t := v.Method(i).Type()
			switch {
			case t.NumIn() == 2 && t.NumOut() == 2 && t.In(0).Kind() == reflect.Interface:
				e.ms = append(e.ms, method{m.Name, v.Method(i), t.In(1), ""})
			case t.NumIn() == 2 && t.NumOut() == 1:
				e.ms = append(e.ms, method{m.Name, v.Method(i), t.In(0), m.Name})
			}
		}
	}
	add(grpchandler.NewOperatorHandler(e.d.Operator))
	add(grpchandler.NewTraderHandler(e.d.Trade))
	add(grpchandler.NewWalletHandler(e.d.Wallet))
	sort.Slice(e.ms, func(i, j int) bool { return e.ms[i].name < e.ms[j].name })
}

// ---- digest of the state a failed request must leave alone

type digest map[string]string

func (e *env) digest() digest {
	q := digest{}
	rm := e.d.Repo
	if ms, err := rm.MarketRepository().GetAllMarkets(ctx); err == nil {
		for _, m := range ms {
			q[fmt.Sprintf("market %d", m.AccountIndex)] = fmt.Sprintf("%s %s %v %v %v %d %v", m.BaseAsset, m.QuoteAsset, m.Fee, m.FixedFee, m.Tradable, m.Strategy.Type, m.Price)
		}
	}
	if ts, err := rm.TradeRepository().GetAllTrades(ctx); err == nil {
		for _, t := range ts {
			q["trade "+t.ID.String()] = fmt.Sprintf("%+v", *t)
		}
	}
	for _, u := range rm.UnspentRepository().GetAllUnspents(ctx) {
		q["coin "+u.TxID+fmt.Sprint(":", u.VOut)] = fmt.Sprintf("%d %s %v %v %v %v", u.Value, u.AssetHash, u.Spent, u.Locked, u.Confirmed, u.LockedBy)
	}
	if v, err := rm.VaultRepository().GetOrCreateVault(ctx, nil, "", nil); err == nil {
		q["vault"] = fmt.Sprintf("%s %x %v", v.EncryptedMnemonic, v.PassphraseHash, v.IsLocked())
		for i, a := range v.Accounts {
			q[fmt.Sprintf("indexes %d", i)] = fmt.Sprintf("%d/%d %d", a.LastExternalIndex, a.LastInternalIndex, len(a.DerivationPathByScript))
		}
	}
	for k := 0; k < 8; k++ {
		if hs, err := e.d.Operator.ListWebhooks(ctx, k); err == nil {
			for _, h := range hs {
				q["hook "+h.Id] = h.Endpoint
			}
		}
	}
	return q
}

func diff(a, b digest) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, k+" is gone")
		} else if v != w {
			out = append(out, fmt.Sprintf("%s: %.300s -> %.300s", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s appeared: %.200s", k, v))
		}
	}
	sort.Strings(out)
	return
}

// ---- generated requests

func pick(g *sim.Rng, l []string, def string) string {
	if len(l) == 0 {
		return def
	}
	return l[g.Intn(len(l))]
}

func (e *env) junkStr() string {
	g := e.g
	switch g.Intn(10) {
	case 0:
		return ""
	case 1:
		return g.Hex(32)
	case 2:
		return g.Hex(1 + g.Intn(40))
	case 3:
		return strings.Repeat("a", 1<<uint(g.Intn(17)))
	case 4:
		return "zz" + g.Hex(31)
	case 5:
		return "\x00"
	case 6:
		return "é漢\u2028%s%d%n"
	case 7:
		return strings.ToUpper(sim.LBTC)
	case 8:
		return "../../../../x"
	}
	return g.Str(1 + g.Intn(70))
}

func (e *env) num() uint64 {
	g := e.g
	edge := []uint64{0, 1, 2, 5, 100, 546, 1000, 5000, 9999, 10000, 10001, 100000, 1e8, 1 << 31, 1<<31 - 1, 1 << 32, 21e14, 21e14 + 1, 1 << 53, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 1000}
	if g.Chance(3) {
		return g.Log(64)
	}
	return edge[g.Intn(len(edge))]
}

func (e *env) address() string {
	g := e.g
	switch g.Intn(10) {
	case 0, 1:
		return pick(g, e.addrs, "")
	case 2:
		return "el1qqw3e3mk4ng3ks43mh54udznuekaadh9lgwef3mgzrfzakmdwcvqpe4ppdaa3t44v3zv2u6w56pv6tc666fvgzaclqjnkz0sd"
	case 3:
		return "ert1q" + g.Str(38)
	case 4:
		return "VTpzWvfh3qVBPKxWGbJj4Nn3e6yYJ7hVyJ6F8v3N5rBkqRr6W9oYqU2eHcsZzX3kDbCqUjpiAMbxTkMi"
	case 5:
		return e.junkStr()
	}
	return pick(g, e.foreign, "")
}

func (e *env) str(f string) string {
	g := e.g
	if g.Chance(9) {
		return e.junkStr()
	}
	switch f {
	case "base_asset":
		return sim.LBTC
	case "quote_asset":
		if g.Chance(7) {
			return []string{g.Hex(32), sim.LBTC, g.Hex(31), g.Hex(33)}[g.Intn(4)]
		}
		return pick(g, e.quotes, g.Hex(32))
	case "asset", "asset_p", "asset_r":
		if g.Bool() {
			return sim.LBTC
		}
		return pick(g, e.quotes, g.Hex(32))
	case "hash", "txid":
		return pick(g, e.txids, g.Hex(32))
	case "address":
		return e.address()
	case "transaction":
		s := pick(g, e.psets, "cHNldP8=")
		if g.Chance(3) {
			return s
		}
		return sim.MutatePset(g, s)
	case "endpoint":
		return []string{"http://127.0.0.1:1/hook", "https://127.0.0.1:1", "http://", "ftp://127.0.0.1", "127.0.0.1"}[g.Intn(5)]
	case "secret":
		return []string{"", "s", g.Hex(16)}[g.Intn(3)]
	}
	if strings.HasSuffix(f, "id") {
		return pick(g, e.ids, g.Hex(16))
	}
	return e.junkStr()
}

func (e *env) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	g := e.g
	f := string(fd.Name())
	n := e.num()
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.Bool())
	case protoreflect.EnumKind:
		if g.Chance(4) {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(n)))
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(g.Intn(6)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		if f == "index" && !g.Chance(3) {
			return protoreflect.ValueOfInt32(int32(g.Intn(4)))
		}
		return protoreflect.ValueOfInt32(int32(n) * int32(1-2*g.Intn(2)))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		if !g.Chance(3) {
			return protoreflect.ValueOfInt64([]int64{0, 1, 2, 3, 100, 1000}[g.Intn(6)])
		}
		if f == "num_of_addresses" && n > 30 && n < 1<<33 {
			n = 1<<33 + n // what a refusal must answer, not hours of derivation
		}
		return protoreflect.ValueOfInt64(int64(n) * int64(1-2*g.Intn(2)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		if f == "account_index" && !g.Chance(4) {
			return protoreflect.ValueOfUint64(uint64(5 + g.Intn(5)))
		}
		return protoreflect.ValueOfUint64(n)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(e.float()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(e.float())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(strings.ToValidUTF8(e.str(f), "?"))
	case protoreflect.BytesKind:
		if strings.Contains(f, "password") && g.Bool() {
			return protoreflect.ValueOfBytes([]byte([]string{sim.Pass, "wrong", "\xff\x00"}[g.Intn(3)]))
		}
		return protoreflect.ValueOfBytes(g.Bytes(g.Intn(70)))
	}
	panic("kind " + fd.Kind().String())
}

func (e *env) float() float64 {
	g := e.g
	return []float64{0, -1, 1, 0.00005, 20000, 1e-30, 1e-45, 3e38, math.NaN(), math.Inf(1), math.Inf(-1), float64(g.Intn(1000)) / 7}[g.Intn(12)]
}

func (e *env) fill(m protoreflect.Message, depth int) {
	g := e.g
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if !g.Chance(8) {
			e.field(m, fs.Get(i), depth)
		}
	}
}

func (e *env) field(m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int) {
	g := e.g
	switch {
	case fd.IsMap():
		mp := m.NewField(fd).Map()
		for k := g.Intn(4); k > 0; k-- {
			key := pick(g, e.scripts, "00")
			if g.Chance(3) {
				key = strings.ToValidUTF8(e.junkStr(), "?")
			}
			if fd.MapKey().Kind() == protoreflect.StringKind && fd.MapValue().Kind() == protoreflect.BytesKind {
				v := e.tr.W.BlindingKey()
				if g.Chance(3) {
					v = g.Bytes(g.Intn(40))
				}
				mp.Set(protoreflect.ValueOfString(key).MapKey(), protoreflect.ValueOfBytes(v))
			}
		}
		m.Set(fd, protoreflect.ValueOfMap(mp))
	case fd.IsList():
		l := m.NewField(fd).List()
		n := g.Intn(4)
		if g.Chance(20) {
			n = 200
		}
		if fd.Name() == "seed_mnemonic" {
			for _, w := range e.mnemonic() {
				l.Append(protoreflect.ValueOfString(strings.ToValidUTF8(w, "?")))
			}
			n = 0
		}
		for k := 0; k < n; k++ {
			if fd.Kind() == protoreflect.MessageKind {
				v := l.NewElement()
				e.fill(v.Message(), depth+1)
				l.Append(v)
			} else {
				l.Append(e.scalar(fd))
			}
		}
		m.Set(fd, protoreflect.ValueOfList(l))
	case fd.Kind() == protoreflect.MessageKind:
		v := m.NewField(fd)
		e.fill(v.Message(), depth+1)
		m.Set(fd, v)
	default:
		m.Set(fd, e.scalar(fd))
	}
}

func (e *env) mnemonic() []string {
	g := e.g
	w := append([]string{}, sim.Words...)
	switch g.Intn(6) {
	case 0:
		return nil
	case 1:
		return w[:g.Intn(len(w))]
	case 2:
		w[g.Intn(len(w))] = e.junkStr()
	case 3:
		w[0], w[5] = w[5], w[0]
	case 4:
		return []string{strings.Join(w, " ")}
	case 5:
		return append(w, w...)
	}
	return w
}

// mutate changes some fields of a request, at any depth.
func (e *env) mutate(m protoreflect.Message) {
	g := e.g
	type spot struct {
		m  protoreflect.Message
		fd protoreflect.FieldDescriptor
	}
	var spots []spot
	var walk func(m protoreflect.Message)
	walk = func(m protoreflect.Message) {
		fs := m.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			fd := fs.Get(i)
			spots = append(spots, spot{m, fd})
			if fd.Kind() == protoreflect.MessageKind && !fd.IsMap() && m.Has(fd) {
				if fd.IsList() {
					for k := 0; k < m.Get(fd).List().Len(); k++ {
						walk(m.Get(fd).List().Get(k).Message())
					}
				} else {
					walk(m.Mutable(fd).Message())
				}
			}
		}
	}
	walk(m)
	for k := 1 + g.Intn(2); k > 0 && len(spots) > 0; k-- {
		s := spots[g.Intn(len(spots))]
		if g.Chance(4) {
			s.m.Clear(s.fd)
			continue
		}
		e.field(s.m, s.fd, 0)
	}
}

// template is a request that would be served, nil if there is none.
func (e *env) template(name string) proto.Message {
	g := e.g
	mk := func() application.Market {
		return application.Market{BaseAsset: sim.LBTC, QuoteAsset: pick(g, e.quotes, g.Hex(32))}
	}
	switch name {
	case "TradePropose":
		if e.state != "running" {
			return nil
		}
		m := mk()
		typ := g.Intn(2)
		aP, p, aR, r, err := sim.AmountsFor(e.d, m, typ, 2000+uint64(g.Intn(5000)))
		if err != nil || p == 0 || r == 0 || p > 1<<50 {
			return nil
		}
		e.seq++
		var t *sim.Trader
		if aP == sim.LBTC && g.Chance(3) {
			t = e.tr
		} else if t, err = sim.NewTrader(e.d.Chain, sim.Pay{"", aP, p + 5000}); err != nil {
			return nil
		}
		req, err := t.Request(fmt.Sprintf("h%d", e.seq), aP, p, aR, r)
		if err != nil {
			return nil
		}
		if len(e.psets) < 60 {
			e.psets = append(e.psets, req.Transaction)
		} else {
			e.psets[g.Intn(60)] = req.Transaction
		}
		e.scripts = append(e.scripts, t.ScriptHex())
		if g.Chance(4) { // a liar's coin: the proof claims another asset, or nothing
			e.r.Count("crafted coins", 1)
			out, err := sim.LieOut(aP, sim.NewAsset(), p, t.ScriptBytes(), sim.BlindPub(t.W.Address()))
			if g.Bool() {
				out, err = sim.ShortOut(aP, p, t.ScriptBytes(), sim.BlindPub(t.W.Address()), g.Bool())
			}
			if err == nil {
				if tx := sim.ReplacePrevout(req.Transaction, out); tx != "" {
					req.Transaction = tx
				}
			}
		}
		return &pbt.TradeProposeRequest{Market: pbMarket(m), Type: pbt.TradeType(typ), SwapRequest: req}
	case "TradeComplete":
		if len(e.open) == 0 {
			return nil
		}
		o := e.open[g.Intn(len(e.open))]
		c, err := o.p.Trader.Complete(g.Hex(4), o.p.Acc)
		if err != nil {
			return nil
		}
		return &pbt.TradeCompleteRequest{SwapComplete: c}
	case "SendToMany":
		return &pbw.SendToManyRequest{Outputs: []*pbw.TxOut{{Asset: sim.LBTC, Value: 1000, Address: pick(g, e.foreign, "")}}, MillisatPerByte: 100}
	case "WithdrawMarket":
		return &pbop.WithdrawMarketRequest{Market: pbMarket(mk()), BalanceToWithdraw: pbBalance(1000, 1000), MillisatPerByte: 100, Address: pick(g, e.foreign, "")}
	case "ClaimMarketDeposit", "ClaimFeeDeposit":
		if e.state != "running" || len(e.addrs) == 0 {
			return nil
		}
		ops := e.d.Chain.MustFund(g.Bool(), sim.Pay{pick(g, e.addrs, ""), sim.LBTC, 1000}, sim.Pay{pick(g, e.addrs, ""), pick(g, e.quotes, sim.LBTC), 1000})
		e.txids = append(e.txids, ops[0].Hash)
		var l []*pbop.TxOutpoint
		for _, o := range ops {
			l = append(l, &pbop.TxOutpoint{Hash: o.Hash, Index: int32(o.Index)})
		}
		if name == "ClaimFeeDeposit" {
			return &pbop.ClaimFeeDepositRequest{Outpoints: l}
		}
		return &pbop.ClaimMarketDepositRequest{Market: pbMarket(mk()), Outpoints: l}
	}
	return nil
}

// ---- one call

func (e *env) request(m method) (proto.Message, bool) {
	var req proto.Message
	templ := false
	if e.g.Chance(3) {
		templ = false
	} else if t := e.template(m.name); t != nil {
		req, templ = t, true
		if !e.g.Chance(5) {
			e.mutate(req.ProtoReflect())
		}
	}
	if req == nil {
		req = reflect.New(m.req.Elem()).Interface().(proto.Message)
		if !e.g.Chance(12) {
			e.fill(req.ProtoReflect(), 0)
		}
	}
	// as it would arrive
	b, err := proto.Marshal(req)
	if err != nil {
		return nil, false
	}
	q := reflect.New(m.req.Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(b, q); err != nil {
		return nil, false
	}
	return q, templ
}

// allowed tells the changes a failed request may leave: addresses derived for
// a transaction that was not sent in the end stay used.
func allowed(name, change string) bool {
	switch name {
	case "SendToMany", "WithdrawMarket", "TradePropose":
		return strings.HasPrefix(change, "indexes ")
	}
	return false
}

func (e *env) call(m method, req proto.Message, fail int) (reply proto.Message, err error) {
	e.log = append(e.log, fmt.Sprintf("%s(%.400s)", m.name, fmt.Sprint(req)))
	s := &stream{fail: fail}
	args := []reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)}
	switch m.kind {
	case "TradePropose":
		args = []reflect.Value{reflect.ValueOf(req), reflect.ValueOf(proposeStream{s})}
	case "TradeComplete":
		args = []reflect.Value{reflect.ValueOf(req), reflect.ValueOf(completeStream{s})}
	case "InitWallet":
		args = []reflect.Value{reflect.ValueOf(req), reflect.ValueOf(initStream{s})}
	case "":
	default:
		panic("stream " + m.kind)
	}
	var out []reflect.Value
	in, stack := sim.Within(90*time.Second, func() {
		ok, site, msg := sim.Guard(func() { out = m.h.Call(args) })
		if !ok {
			e.bad("panic:"+m.name+":"+site, "%s panics: %s in %s", m.name, msg, site)
			out = nil
		}
	})
	if !in {
		e.bad("hang:"+m.name, "%s does not return within 90 s: %.3000s", m.name, stack)
		e.r.Finish()
	}
	if out == nil {
		return nil, errors.New("panic")
	}
	if x := out[len(out)-1].Interface(); x != nil {
		err = x.(error)
	}
	if m.kind == "" {
		if err == nil {
			reply = out[0].Interface().(proto.Message)
		}
	} else if len(s.out) > 0 {
		reply = s.out[len(s.out)-1]
	}
	return
}

func (e *env) hostile(m method) {
	req, templ := e.request(m)
	if req == nil {
		return
	}
	if pr, ok := req.(*pbt.TradeProposeRequest); ok {
		if t := pr.GetSwapRequest().GetTransaction(); t != "" && sim.BoundedPset(t) != nil {
			e.r.Count("unbounded", 1)
		}
	}
	before := e.digest()
	fail := -1
	if m.kind != "" && m.kind != "TradePropose" && e.g.Chance(5) {
		fail = e.g.Intn(2)
	}
	reply, err := e.call(m, req, fail)
	e.r.Count("calls", 1)
	e.r.Count("calls "+e.state, 1)
	if templ {
		e.r.Count("from an honest request", 1)
	}
	code := "ok"
	if err != nil {
		code = err.Error()
		if i := strings.IndexAny(code, "0123456789"); i > 0 {
			code = code[:i]
		}
		if len(code) > 60 {
			code = code[:60]
		}
	}
	e.r.Eval(e.state + " " + m.name + " " + code)
	if reply != nil && !reflect.ValueOf(reply).IsNil() {
		if _, merr := proto.Marshal(reply); merr != nil {
			e.bad("reply:"+m.name, "the reply of %s cannot be sent: %s", m.name, merr)
		}
	}
	if err != nil {
		e.r.Count("refused", 1)
		if fail >= 0 {
			return // the answer was lost, not refused
		}
		after := e.digest()
		for _, c := range diff(before, after) {
			if !allowed(m.name, c) {
				e.bad("changed:"+m.name, "%s failed with %q but changed %s", m.name, err, c)
			}
		}
		return
	}
	e.r.Count("served", 1)
	switch m.name {
	case "ClaimMarketDeposit", "ClaimFeeDeposit", "TradeComplete", "ReloadUtxos", "WithdrawMarket", "SendToMany":
		sim.Quiesce()
	}
	e.learn(m, req, reply)
}

func (e *env) learn(m method, req, reply proto.Message) {
	g := e.g
	keep := func(l []string, s string) []string {
		if s == "" {
			return l
		}
		if len(l) > 40 {
			l[g.Intn(len(l))] = s
			return l
		}
		return append(l, s)
	}
	switch x := reply.(type) {
	case *pbt.TradeProposeReply:
		if a := x.GetSwapAccept(); a != nil {
			e.ids = keep(e.ids, a.Id)
			e.psets = keep(e.psets, a.Transaction)
			e.r.Count("mutants accepted", 1)
		}
	case *pbop.AddWebhookReply:
		e.ids = keep(e.ids, x.Id)
	case *pbop.DepositMarketReply:
		e.addrs = keep(e.addrs, pick(g, x.Addresses, ""))
	case *pbop.DepositFeeAccountReply:
		if l := x.AddressWithBlindingKey; len(l) > 0 {
			e.addrs = keep(e.addrs, l[0].Address)
		}
	case *pbw.WalletAddressReply:
		e.addrs = keep(e.addrs, x.Address)
	}
	_ = req
}

// ---- honest use in between

func (e *env) honest(fresh bool) {
	g := e.g
	var mk application.Market
	if fresh || len(e.quotes) == 0 {
		q := sim.NewAsset()
		if err := e.d.FundFee(20000, 20000, 20000); err != nil {
			e.bad("dead:deposit", "the fee account cannot be funded any more: %s", err)
			return
		}
		var err error
		if mk, _, err = e.d.OpenedMarket(q, []uint64{1e6, 1e6, 1e6}, []uint64{1e9, 1e9, 1e9}); err != nil {
			e.bad("dead:market", "no market can be opened any more: %s", err)
			return
		}
		e.quotes = append(e.quotes, q)
		if l, err := e.d.Operator.ListMarketExternalAddresses(ctx, mk); err == nil {
			for _, a := range l {
				e.addrs = append(e.addrs, a)
			}
		}
	} else {
		mk = application.Market{BaseAsset: sim.LBTC, QuoteAsset: pick(g, e.quotes, "")}
	}
	e.seq++
	p, err := e.d.Propose(mk, g.Intn(2), 2000+uint64(g.Intn(8000)), fmt.Sprintf("honest%d", e.seq))
	if err != nil || p.Acc == nil {
		if fresh {
			why := fmt.Sprint(err)
			if p != nil && p.Fail != nil {
				why += " " + p.Fail.GetFailureMessage()
			}
			e.bad("dead:trade", "an honest proposal on a new market is refused: %s", why)
		}
		return
	}
	e.r.Count("honest proposals", 1)
	e.ids = append(e.ids, p.Acc.GetId(), p.Acc.GetRequestId())
	e.psets = append(e.psets, p.Acc.GetTransaction())
	e.open = append(e.open, open{p})
	if len(e.open) > 6 {
		e.open = e.open[1:]
	}
	if !fresh && g.Bool() {
		return
	}
	c, err := p.Trader.Complete("c", p.Acc)
	if err != nil {
		e.bad("dead:sign", "the accepted transaction cannot be signed: %s", err)
		return
	}
	var dc domain.SwapComplete = c
	id, f, err := e.d.Trade.TradeComplete(ctx, &dc, nil)
	if err != nil || f != nil {
		e.bad("dead:complete", "an honest completion is refused: %v %v", err, f)
		return
	}
	e.txids = append(e.txids, id)
	e.r.Count("honest trades", 1)
	sim.Quiesce()
}

func (e *env) find(name string) method {
	for _, m := range e.ms {
		if m.name == name {
			return m
		}
	}
	panic(name)
}

func (e *env) run(n int, skip ...string) {
	for i := 0; i < n && !e.r.Violated(); i++ {
		m := e.ms[e.g.Intn(len(e.ms))]
		if e.state == "running" && e.g.Chance(2) {
			m = e.find([]string{"TradePropose", "TradePropose", "TradeComplete", "TradeComplete", "ClaimMarketDeposit",
				"ClaimFeeDeposit", "WithdrawMarket", "SendToMany", "DepositMarket", "UpdateMarketPrice", "MarketPrice"}[e.g.Intn(11)])
		}
		ok := true
		for _, s := range skip {
			ok = ok && s != m.name
		}
		if ok {
			e.hostile(m)
		}
	}
}

func shard(r *sim.Rec) {
	g := r.Rng("c12")
	sim.UseFastEncrypter()
	e := &env{r: r, g: g}
	c := sim.NewChain()
	st, err := boltsecurestore.NewSecureStorage(r.Dir, "pubsub.db")
	if err != nil {
		panic(err)
	}
	ps, err := webhookpubsub.NewWebhookPubSubService(st, esplora.NewHTTPClient(2*time.Second))
	if err != nil {
		panic(err)
	}
	e.d, err = sim.NewDaemon(sim.DaemonOpts{Chain: c, NoListener: true, FewAddrs: 3, PubSub: ps})
	if err != nil {
		panic(err)
	}
	e.handlers()
	for i := 0; i < 3; i++ {
		w, _ := trade.NewRandomWallet(sim.Net)
		e.foreign = append(e.foreign, w.Address())
	}
	if e.tr, err = sim.NewTrader(c, sim.Pay{"", sim.LBTC, 1e8}); err != nil {
		panic(err)
	}
	e.scripts = append(e.scripts, e.tr.ScriptHex())
	e.quotes = []string{}
	if req, err := e.tr.Request("x", sim.LBTC, 5000, sim.NewAsset(), 1e6); err == nil {
		e.psets = append(e.psets, req.Transaction)
	}

	// before there is a wallet
	e.state = "uninitialised"
	e.run(r.N(60, 300), "InitWallet")
	im := e.find("InitWallet")
	for i := 0; i < r.N(12, 40); i++ {
		q, _ := e.request(im)
		iq := q.(*pbw.InitWalletRequest)
		if wellFormed(iq.SeedMnemonic) && len(iq.WalletPassword) > 0 {
			iq.SeedMnemonic = iq.SeedMnemonic[1:]
		}
		if _, err := e.call(im, iq, -1); err == nil {
			e.bad("init", "InitWallet succeeds on the malformed seed %q", iq.SeedMnemonic)
		}
		r.Eval("init refused")
	}
	// the client goes away while its wallet is restored
	lost := sim.Shard()%4 != 0
	if lost {
		ring := sim.NewKeyRing(sim.Words)
		for i := 0; i < 3; i++ {
			c.MustFund(true, sim.Pay{ring.At(domain.FeeAccount, 0, i).Address, sim.LBTC, 5000})
		}
		if _, err := e.call(im, &pbw.InitWalletRequest{SeedMnemonic: sim.Words, WalletPassword: []byte(sim.Pass), Restore: true}, e.g.Intn(4)); err != nil {
			r.Count("clients lost while restoring", 1)
		}
	}
	um := e.find("UnlockWallet")
	up := sim.WaitFor(20*time.Second, func() bool {
		// whether or not the lost call went through, the seed can be given again
		_, err := e.call(im, &pbw.InitWalletRequest{SeedMnemonic: sim.Words, WalletPassword: []byte(sim.Pass)}, -1)
		if err != nil {
			return false
		}
		if e.state == "uninitialised" {
			e.state = "locked"
			e.run(r.N(60, 300), "InitWallet", "UnlockWallet", "ChangePassword")
			if _, err = e.call(um, &pbw.UnlockWalletRequest{WalletPassword: []byte("wrong")}, -1); err == nil {
				e.bad("unlock", "a wrong password unlocks")
			}
		}
		_, err = e.call(um, &pbw.UnlockWalletRequest{WalletPassword: []byte(sim.Pass)}, -1)
		return err == nil
	})
	if !up {
		e.bad("wedged", "the wallet can be neither initialised nor unlocked (client lost while restoring: %v)", lost)
		return
	}
	e.state = "running"
	e.run(r.N(25, 100))
	for i := 0; i < r.N(3, 10) && !r.Violated(); i++ {
		e.honest(true)
		for k := 0; k < r.N(3, 8) && !r.Violated(); k++ {
			e.run(r.N(25, 60))
			e.honest(false)
		}
	}
	if !r.Violated() {
		e.honest(true)
	}
	e.d.Close()
}

// wellFormed seeds are as many known words as there have to be.
func wellFormed(w []string) bool {
	n := len(strings.Fields(strings.Join(w, " ")))
	return n >= 12 && n <= 24 && n%3 == 0
}

func main() {
	r := sim.Start("every request is answered without a panic or a hang, a refused one changes nothing, and honest trades keep working")
	defer r.Finish()
	if sim.Shard() >= 0 {
		r.GuardV("C12/harness", "monitor", func() { shard(r) })
		return
	}
	r.RunShards(r.N(8, 40))
	r.NeedAtLeast("calls", 1000)
	r.NeedAtLeast("refused", 500)
	r.NeedAtLeast("served", 100)
	r.NeedAtLeast("calls uninitialised", 100)
	r.NeedAtLeast("calls locked", 100)
	r.NeedAtLeast("from an honest request", 100)
	r.NeedAtLeast("honest trades", 16)
	r.NeedAtLeast("clients lost while restoring", 1)
	r.Assume("addresses derived for a withdrawal or a swap that is refused afterwards stay used")
}

func pbMarket(m application.Market) *pbtypes.Market {
	return &pbtypes.Market{BaseAsset: m.BaseAsset, QuoteAsset: m.QuoteAsset}
}

func pbBalance(b, q uint64) *pbtypes.Balance {
	return &pbtypes.Balance{BaseAmount: b, QuoteAmount: q}
}
