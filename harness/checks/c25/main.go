// Monitor of C25: the client library trades only on its caller's terms.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbt "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

var ctx = context.Background()

// provider serves the trade interface: the real daemon's, but for the lies.
type provider struct {
	pbt.TradeServer
	mu        sync.Mutex
	prices    map[string]*pbt.MarketPriceReply
	accepts   map[string]*pbt.TradeProposeReply // by proposed transaction
	priceLie  func(*pbt.MarketPriceReply) (*pbt.MarketPriceReply, error)
	lie       func(*pbt.TradeProposeRequest, *pbt.TradeProposeReply) (*pbt.TradeProposeReply, error)
	forward   bool
	proposals []*pbt.TradeProposeRequest
	sent      []*pbt.TradeProposeReply
	completes []*pbt.TradeCompleteRequest
	previews  []*pbt.MarketPriceReply
	ending    func() (*pbt.TradeCompleteReply, error)
}

func (p *provider) reset() {
	p.mu.Lock()
	p.proposals, p.sent, p.completes, p.previews = nil, nil, nil, nil
	p.priceLie, p.lie, p.ending, p.forward = nil, nil, nil, false
	p.mu.Unlock()
}

func (p *provider) MarketPrice(c context.Context, q *pbt.MarketPriceRequest) (*pbt.MarketPriceReply, error) {
	k := q.String()
	p.mu.Lock()
	rep := p.prices[k]
	lie := p.priceLie
	p.mu.Unlock()
	if rep == nil {
		var err error
		if rep, err = p.TradeServer.MarketPrice(c, q); err != nil {
			return nil, err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.prices[k] = rep
	rep = proto.Clone(rep).(*pbt.MarketPriceReply)
	if lie != nil {
		var err error
		if rep, err = lie(rep); err != nil {
			return nil, err
		}
	}
	p.previews = append(p.previews, rep)
	return rep, nil
}

type catch struct {
	grpc.ServerStream
	c   context.Context
	rep *pbt.TradeProposeReply
}

func (s *catch) Context() context.Context            { return s.c }
func (s *catch) Send(m *pbt.TradeProposeReply) error { s.rep = m; return nil }

func (p *provider) TradePropose(q *pbt.TradeProposeRequest, s pbt.Trade_TradeProposeServer) error {
	p.mu.Lock()
	k := q.GetSwapRequest().GetTransaction()
	rep := p.accepts[k]
	lie, fwd := p.lie, p.forward
	p.proposals = append(p.proposals, proto.Clone(q).(*pbt.TradeProposeRequest))
	p.mu.Unlock()
	if rep == nil || fwd {
		c := &catch{c: s.Context()}
		if err := p.TradeServer.TradePropose(q, c); err != nil {
			return err
		}
		rep = c.rep
	}
	p.mu.Lock()
	if rep.GetSwapAccept() != nil && !fwd {
		p.accepts[k] = rep
	}
	p.mu.Unlock()
	rep = proto.Clone(rep).(*pbt.TradeProposeReply)
	if a := rep.GetSwapAccept(); a != nil && !fwd {
		a.RequestId = q.GetSwapRequest().GetId()
	}
	var err error
	if lie != nil {
		if rep, err = lie(q, rep); err != nil {
			return err
		}
	}
	p.mu.Lock()
	p.sent = append(p.sent, rep)
	p.mu.Unlock()
	if rep == nil {
		return nil // ends the stream without an answer
	}
	return s.Send(rep)
}

func (p *provider) TradeComplete(q *pbt.TradeCompleteRequest, s pbt.Trade_TradeCompleteServer) error {
	p.mu.Lock()
	p.completes = append(p.completes, proto.Clone(q).(*pbt.TradeCompleteRequest))
	fwd, end := p.forward, p.ending
	p.mu.Unlock()
	if fwd {
		return p.TradeServer.TradeComplete(q, s)
	}
	if end != nil {
		r, err := end()
		if err != nil {
			return err
		}
		return s.Send(r)
	}
	return s.Send(&pbt.TradeCompleteReply{Txid: "00"})
}

type env struct {
	r   *sim.Rec
	g   *sim.Rng
	d   *sim.Daemon
	c   *sim.Chain
	p   *provider
	mk  application.Market
	t   *trade.Trade
	who *trade.Wallet
}

// terms of one trade
type terms struct {
	typ    int
	asset  string
	amount uint64
}

func (t terms) String() string { return fmt.Sprintf("type %d, %d of %.6s", t.typ, t.amount, t.asset) }

func (e *env) bad(sig, f string, a ...interface{}) { e.r.Violate("C25/"+sig, f, a...) }

// expected says what the caller sends and receives at a preview.
func (e *env) expected(t terms, previewed uint64) (aP string, p uint64, aR string, r uint64) {
	other := e.mk.BaseAsset
	if t.asset == e.mk.BaseAsset {
		other = e.mk.QuoteAsset
	}
	receives := (t.typ == application.TradeBuy) == (t.asset == e.mk.BaseAsset)
	if receives {
		return other, previewed, t.asset, t.amount
	}
	return t.asset, t.amount, other, previewed
}

func (e *env) script() []byte { _, s := e.who.Script(); return s }

// checkProposal compares a proposal with the caller's terms.
func (e *env) checkProposal(t terms, q *pbt.TradeProposeRequest, pv *pbt.MarketPriceReply) {
	s := q.GetSwapRequest()
	aP, p, aR, r := e.expected(t, pv.GetPrices()[0].GetAmount())
	if s.AssetP != aP || s.AmountP != p || s.AssetR != aR || s.AmountR != r || int(q.Type) != t.typ ||
		q.GetMarket().GetBaseAsset() != e.mk.BaseAsset || q.GetMarket().GetQuoteAsset() != e.mk.QuoteAsset {
		e.bad("terms", "%s: the caller offers %d of %.6s for %d of %.6s, the proposal says %d of %.6s for %d of %.6s (type %d)", t, p, aP, r, aR, s.AmountP, s.AssetP, s.AmountR, s.AssetR, q.Type)
		return
	}
	ptx, err := pset.NewPsetFromBase64(s.Transaction)
	if err != nil {
		e.bad("proposal-tx", "%s: the proposed transaction cannot be read: %s", t, err)
		return
	}
	in := uint64(0)
	for i, ti := range ptx.UnsignedTx.Inputs {
		o, _ := e.c.Out(sim.Outpoint{Hash: sim.InHash(ti), Index: ti.Index})
		if o == nil || !bytes.Equal(o.Script, e.script()) {
			e.bad("proposal-input", "%s: input %d of the proposal is not a coin of the caller", t, i)
			return
		}
		op, ok := sim.OpenOut(o, e.who.BlindingKey())
		if !ok || op.Asset != aP {
			e.bad("proposal-input", "%s: input %d of the proposal is a coin of %.6s, %.6s is offered", t, i, op.Asset, aP)
			return
		}
		in += op.Value
	}
	want := map[string]int{fmt.Sprintf("%s %d", aR, r): 1}
	if in < p {
		e.bad("proposal-input", "%s: the inputs hold %d of %d", t, in, p)
	} else if in > p {
		want[fmt.Sprintf("%s %d", aP, in-p)]++
	}
	for i, o := range ptx.UnsignedTx.Outputs {
		op, ok := sim.OpenOut(o, e.who.BlindingKey())
		k := fmt.Sprintf("%s %d", op.Asset, op.Value)
		if !ok || !bytes.Equal(o.Script, e.script()) || want[k] == 0 {
			e.bad("proposal-output", "%s: output %d of the proposal (%s to %x) is none of %v to the caller", t, i, k, o.Script, want)
			return
		}
		want[k]--
	}
	for k, n := range want {
		if n != 0 {
			e.bad("proposal-output", "%s: the proposal lacks an output of %s to the caller", t, k)
		}
	}
	e.r.Count("proposals", 1)
}

// fair tells why a transaction is not one the caller agreed to, "" if it is.
func (e *env) fair(s *pbswap.SwapRequest, tx *transaction.Transaction) string {
	req, err := pset.NewPsetFromBase64(s.Transaction)
	if err != nil {
		return "no request"
	}
	mine := map[sim.Outpoint]bool{}
	for _, i := range req.UnsignedTx.Inputs {
		mine[sim.Outpoint{Hash: sim.InHash(i), Index: i.Index}] = true
	}
	for _, i := range tx.Inputs {
		op := sim.Outpoint{Hash: sim.InHash(i), Index: i.Index}
		if o, _ := e.c.Out(op); o != nil && bytes.Equal(o.Script, e.script()) && !mine[op] {
			return "spends the caller's " + op.String()
		}
	}
	used := map[int]bool{}
	for _, w := range req.UnsignedTx.Outputs {
		wo, _ := sim.OpenOut(w, e.who.BlindingKey())
		found := false
		for i, o := range tx.Outputs {
			if found || used[i] || !bytes.Equal(o.Script, e.script()) {
				continue
			}
			if op, ok := sim.OpenOut(o, e.who.BlindingKey()); ok && op.Asset == wo.Asset && op.Value == wo.Value {
				used[i], found = true, true
			}
		}
		if !found {
			return fmt.Sprintf("does not pay the caller %d of %.6s", wo.Value, wo.Asset)
		}
	}
	return ""
}

// ends runs one trade and judges what left the client. It returns the error
// of the client.
func (e *env) trade(t terms, andComplete bool, what string) (string, error) {
	m := trademarket.Market{BaseAsset: e.mk.BaseAsset, QuoteAsset: e.mk.QuoteAsset}
	var err error
	var txid string
	var acc []byte
	in, stack := sim.Within(60*time.Second, func() {
		ok, site, msg := sim.Guard(func() {
			if andComplete {
				o := trade.BuyOrSellAndCompleteOpts{Market: m, Amount: t.amount, Asset: t.asset, PrivateKey: e.who.PrivateKey(), BlindingKey: e.who.BlindingKey()}
				if t.typ == application.TradeBuy {
					txid, err = e.t.BuyAndComplete(o)
				} else {
					txid, err = e.t.SellAndComplete(o)
				}
				return
			}
			o := trade.BuyOrSellOpts{Market: m, Amount: t.amount, Asset: t.asset, Address: e.who.Address(), BlindingKey: e.who.BlindingKey()}
			if t.typ == application.TradeBuy {
				acc, err = e.t.Buy(o)
			} else {
				acc, err = e.t.Sell(o)
			}
		})
		if !ok {
			err = errors.New("panic")
			e.bad("panic:"+site, "%s, provider that %s: the client panics: %s in %s", t, what, msg, site)
		}
	})
	if !in {
		e.bad("hang", "%s, provider that %s: the client does not return: %.1500s", t, what, stack)
		e.r.Finish()
	}
	e.p.mu.Lock()
	defer e.p.mu.Unlock()
	e.r.Eval(what + fmt.Sprint(t.typ, andComplete))
	e.r.Count("trades", 1)
	for i, q := range e.p.proposals {
		if i < len(e.p.previews) && len(e.p.previews[i].GetPrices()) > 0 {
			e.checkProposal(t, q, e.p.previews[i])
		}
	}
	if len(e.p.proposals) > 1 || len(e.p.completes) > 1 {
		e.bad("repeated", "%s, provider that %s: %d proposals and %d completions for one trade", t, what, len(e.p.proposals), len(e.p.completes))
	}
	// whatever carries the caller's signature
	for _, c := range e.p.completes {
		e.r.Count("signatures seen", 1)
		if len(e.p.proposals) == 0 {
			e.bad("signed", "%s: a signature without a proposal", t)
			continue
		}
		s := c.GetSwapComplete()
		if s == nil {
			e.bad("complete", "%s, provider that %s: the completion has no message", t, what)
			continue
		}
		ptx, perr := pset.NewPsetFromBase64(s.Transaction)
		if perr != nil {
			e.bad("complete", "%s, provider that %s: the signed transaction cannot be read: %s", t, what, perr)
			continue
		}
		if why := e.fair(e.p.proposals[0].SwapRequest, ptx.UnsignedTx); why != "" {
			e.bad("signed", "%s, provider that %s: the caller's signature leaves the client for a transaction that %s", t, what, why)
		}
		if a := e.p.sent[0].GetSwapAccept(); a == nil || s.AcceptId != a.Id {
			e.bad("complete", "%s, provider that %s: the completion names %q", t, what, s.AcceptId)
		} else if a.RequestId != e.p.proposals[0].SwapRequest.Id {
			e.bad("signed", "%s, provider that %s: the client signs the answer to another request", t, what)
		}
	}
	if err == nil && !andComplete {
		a := &pbswap.SwapAccept{}
		if uerr := proto.Unmarshal(acc, a); uerr != nil || len(e.p.proposals) != 1 {
			e.bad("returned", "%s, provider that %s: the accept returned cannot be read", t, what)
		} else if ptx, perr := pset.NewPsetFromBase64(a.Transaction); perr != nil {
			e.bad("returned", "%s, provider that %s: an accept without a transaction is returned: %s", t, what, perr)
		} else if why := e.fair(e.p.proposals[0].SwapRequest, ptx.UnsignedTx); why != "" {
			e.bad("returned", "%s, provider that %s: an accept is returned whose transaction %s", t, what, why)
		} else if a.RequestId != e.p.proposals[0].SwapRequest.Id {
			e.bad("returned", "%s, provider that %s: the accept of another request is returned", t, what)
		} else {
			e.r.Count("accepts returned", 1)
		}
	}
	return txid, err
}

// ---- lies

func edit(a *pbswap.SwapAccept, f func(p *pset.Pset) bool) bool {
	p, err := pset.NewPsetFromBase64(a.Transaction)
	if err != nil || !f(p) {
		return false
	}
	s, err := p.ToBase64()
	if err != nil {
		return false
	}
	a.Transaction = s
	return true
}

// lies about the accept, each with what it does. A lie that does not apply
// answers with a failure.
func (e *env) lies() []struct {
	what string
	f    func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool
} {
	g := e.g
	// own finds the outputs of the caller in order (received, change)
	own := func(p *pset.Pset) (l []int) {
		for i, o := range p.UnsignedTx.Outputs {
			if bytes.Equal(o.Script, e.script()) {
				l = append(l, i)
			}
		}
		return
	}
	open := func(o *transaction.TxOutput) sim.Opened { v, _ := sim.OpenOut(o, e.who.BlindingKey()); return v }
	// which output of the caller is that of an asset
	at := func(p *pset.Pset, asset string) int {
		for _, i := range own(p) {
			if open(p.UnsignedTx.Outputs[i]).Asset == asset {
				return i
			}
		}
		return -1
	}
	mk := func(asset string, v uint64, script []byte, pub []byte) *transaction.TxOutput {
		if g.Chance(3) {
			return sim.ExplicitOut(asset, v, script)
		}
		o, err := sim.ConfOut(asset, v, script, pub)
		if err != nil {
			panic(err)
		}
		return o
	}
	pub := sim.BlindPub(e.who.Address())
	other, _ := trade.NewRandomWallet(sim.Net)
	_, otherScript := other.Script()
	swapOut := func(received bool, f func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput) func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
		return func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			asset := q.SwapRequest.AssetP
			if received {
				asset = q.SwapRequest.AssetR
			}
			return edit(a, func(p *pset.Pset) bool {
				i := at(p, asset)
				if i < 0 {
					return false
				}
				o := f(p.UnsignedTx.Outputs[i], open(p.UnsignedTx.Outputs[i]))
				if o == nil {
					p.UnsignedTx.Outputs = append(p.UnsignedTx.Outputs[:i], p.UnsignedTx.Outputs[i+1:]...)
					p.Outputs = append(p.Outputs[:i], p.Outputs[i+1:]...)
					return true
				}
				p.UnsignedTx.Outputs[i] = o
				return true
			})
		}
	}
	type lie = struct {
		what string
		f    func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool
	}
	var out []lie
	for _, received := range []bool{true, false} {
		n := "change"
		if received {
			n = "received output"
		}
		less := uint64(1) << uint(g.Intn(9))
		out = append(out,
			lie{"lowers the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				if v.Value <= less {
					less = 1
				}
				return mk(v.Asset, v.Value-less, o.Script, pub)
			})},
			lie{"removes the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput { return nil })},
			lie{"redirects the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				return mk(v.Asset, v.Value, otherScript, pub)
			})},
			lie{"pays another asset as the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				return mk(sim.NewAsset(), v.Value, o.Script, pub)
			})},
			lie{"blinds the " + n + " for somebody else", swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				x, _ := sim.ConfOut(v.Asset, v.Value, o.Script, sim.BlindPub(other.Address()))
				return x
			})},
			lie{"proves a wrong asset for the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				x, err := sim.LieOut(sim.NewAsset(), v.Asset, v.Value, o.Script, pub)
				if err != nil {
					return o
				}
				return x
			})},
			lie{"hides the value of the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				x, err := sim.ShortOut(v.Asset, v.Value, o.Script, pub, g.Bool())
				if err != nil {
					return o
				}
				return x
			})},
			lie{"burns the " + n, swapOut(received, func(o *transaction.TxOutput, v sim.Opened) *transaction.TxOutput {
				return sim.ExplicitOut(v.Asset, v.Value, append([]byte{0x6a}, o.Script...))
			})},
		)
	}
	out = append(out,
		lie{"pays both outputs with one", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			return edit(a, func(p *pset.Pset) bool {
				i, j := at(p, q.SwapRequest.AssetR), at(p, q.SwapRequest.AssetP)
				if i < 0 || j < 0 {
					return false
				}
				p.UnsignedTx.Outputs[j] = p.UnsignedTx.Outputs[i]
				return true
			})
		}},
		lie{"spends another coin of the caller", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			return edit(a, func(p *pset.Pset) bool {
				in := map[sim.Outpoint]bool{}
				for _, i := range p.UnsignedTx.Inputs {
					in[sim.Outpoint{Hash: sim.InHash(i), Index: i.Index}] = true
				}
				for _, op := range e.c.Unspent(e.script()) {
					if in[op] {
						continue
					}
					o, _ := e.c.Out(op)
					h, _ := hex.DecodeString(op.Hash)
					for i, j := 0, len(h)-1; i < j; i, j = i+1, j-1 {
						h[i], h[j] = h[j], h[i]
					}
					x := transaction.NewTxInput(h, op.Index)
					if k := g.Intn(len(p.Inputs) + 1); k < len(p.Inputs) && g.Chance(3) {
						// in the place of one of the provider
						if oo, _ := e.c.Out(sim.Outpoint{Hash: sim.InHash(p.UnsignedTx.Inputs[k]), Index: p.UnsignedTx.Inputs[k].Index}); oo == nil || !bytes.Equal(oo.Script, e.script()) {
							p.UnsignedTx.Inputs[k] = x
							p.Inputs[k] = pset.PInput{WitnessUtxo: o}
							return true
						}
					}
					p.UnsignedTx.Inputs = append(p.UnsignedTx.Inputs, x)
					p.Inputs = append(p.Inputs, pset.PInput{WitnessUtxo: o})
					return true
				}
				return false
			})
		}},
		lie{"answers another request", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			a.RequestId = []string{"", g.Hex(8), strings.ToUpper(q.SwapRequest.Id) + "x", a.Id}[g.Intn(4)]
			return true
		}},
		lie{"sends garbage", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			a.Transaction = []string{"", "x", "cHNldP8=", q.SwapRequest.Transaction[:len(q.SwapRequest.Transaction)/2]}[g.Intn(4)]
			return true
		}},
		lie{"corrupts the transaction", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			m := sim.MutatePset(g, a.Transaction)
			if m == "" || m == a.Transaction {
				return false
			}
			a.Transaction = m
			return true
		}},
		lie{"drops what is spent", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			return edit(a, func(p *pset.Pset) bool {
				k := g.Intn(len(p.Inputs))
				p.Inputs[k].WitnessUtxo = nil
				return true
			})
		}},
		lie{"answers the transaction of the proposal", func(q *pbt.TradeProposeRequest, a *pbswap.SwapAccept) bool {
			a.Transaction = q.SwapRequest.Transaction
			return true
		}},
	)
	return out
}

func shard(r *sim.Rec) {
	sim.UseFastEncrypter()
	g := r.Rng("c25")
	e := &env{r: r, g: g, c: sim.NewChain()}
	e.d = sim.MustDaemon(sim.DaemonOpts{Chain: e.c, NoListener: true, FewAddrs: 3})
	if err := e.d.FundFee(make5()...); err != nil {
		panic(err)
	}
	var err error
	e.mk, _, err = e.d.OpenedMarket(sim.NewAsset(), rep(1e6, 12), rep(3e6, 12))
	if err != nil {
		panic(err)
	}
	e.p = &provider{TradeServer: grpchandler.NewTraderHandler(e.d.Trade), prices: map[string]*pbt.MarketPriceReply{}, accepts: map[string]*pbt.TradeProposeReply{}}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := grpc.NewServer()
	pbt.RegisterTradeServer(srv, e.p)
	go srv.Serve(lis)
	defer srv.Stop()
	cl, err := tradeclient.NewTradeClient("127.0.0.1", lis.Addr().(*net.TCPAddr).Port)
	if err != nil {
		panic(err)
	}
	defer cl.CloseConnection()
	if e.t, err = trade.NewTrade(trade.NewTradeOpts{Chain: "regtest", ExplorerService: e.c, Client: cl}); err != nil {
		panic(err)
	}
	for k := 0; k < r.N(2, 10) && !r.Violated(); k++ {
		e.round()
	}
	e.d.Close()
}

func (e *env) round() {
	g, r := e.g, e.r
	e.p.mu.Lock()
	e.p.prices, e.p.accepts = map[string]*pbt.MarketPriceReply{}, map[string]*pbt.TradeProposeReply{}
	e.p.mu.Unlock()
	e.who, _ = trade.NewRandomWallet(sim.Net)
	t := terms{typ: g.Intn(2), asset: e.mk.BaseAsset, amount: 3000 + g.Range(0, 20000)}
	if g.Bool() {
		t.asset, t.amount = e.mk.QuoteAsset, 9000+g.Range(0, 60000)
	}
	// the caller's coins: several are needed, some are left over
	for _, a := range []string{e.mk.BaseAsset, e.mk.QuoteAsset} {
		n := 2 + g.Intn(3)
		for i := 0; i < n; i++ {
			e.c.MustFund(true, sim.Pay{Addr: e.who.Address(), Asset: a, Value: t.amount/2 + 1 + g.Range(0, 200000)})
		}
		e.c.MustFund(true, sim.Pay{Addr: e.who.Address(), Asset: a, Value: 1 + g.Range(0, 10)}, sim.Pay{Addr: e.who.Address(), Asset: a, Value: 500000})
	}
	e.p.reset()
	if _, err := e.trade(t, false, "is honest"); err != nil {
		e.bad("honest", "%s: the honest accept of the daemon is refused: %s", t, err)
		return
	}
	r.Count("honest accepts", 1)
	n := 0
	for _, l := range e.lies() {
		for _, complete := range []bool{false, true} {
			if r.Violated() {
				return
			}
			e.p.reset()
			l := l
			applied := false
			e.p.lie = func(q *pbt.TradeProposeRequest, rep *pbt.TradeProposeReply) (*pbt.TradeProposeReply, error) {
				if rep.GetSwapAccept() != nil {
					applied = l.f(q, rep.SwapAccept)
				}
				if !applied {
					return &pbt.TradeProposeReply{SwapFail: &pbswap.SwapFail{FailureMessage: "no"}}, nil
				}
				return rep, nil
			}
			_, err := e.trade(t, complete, l.what)
			if applied {
				n++
				r.Count("lies told", 1)
				if err != nil {
					r.Count("lies refused", 1)
				}
			}
		}
	}
	// answers that are no accepts
	for i := 0; i < 4; i++ {
		e.p.reset()
		i := i
		e.p.lie = func(q *pbt.TradeProposeRequest, rep *pbt.TradeProposeReply) (*pbt.TradeProposeReply, error) {
			switch i {
			case 0:
				return &pbt.TradeProposeReply{}, nil
			case 1:
				return nil, nil
			case 2:
				return nil, errors.New("unavailable")
			}
			rep.SwapFail = &pbswap.SwapFail{FailureCode: 1, FailureMessage: "rejected"}
			rep.SwapAccept = nil
			return rep, nil
		}
		if _, err := e.trade(t, g.Bool(), "does not accept"); err == nil {
			e.bad("no-accept", "%s: the client reports success though the provider accepted nothing (case %d)", t, i)
		}
		r.Count("lies told", 1)
	}
	// previews that are none
	for i := 0; i < 5; i++ {
		e.p.reset()
		i := i
		e.p.priceLie = func(m *pbt.MarketPriceReply) (*pbt.MarketPriceReply, error) {
			switch i {
			case 0:
				m.Prices = nil
			case 1:
				m.Prices[0].Amount = 0
			case 2:
				m.Prices[0].Asset = t.asset
			case 3:
				m.Prices[0].Asset = sim.NewAsset()
			case 4:
				return nil, errors.New("unavailable")
			}
			return m, nil
		}
		if _, err := e.trade(t, g.Bool(), "does not price"); err == nil {
			e.bad("no-preview", "%s: the client trades without a valid preview (case %d)", t, i)
		}
		r.Count("lies told", 1)
	}
	// a provider that fails at the end
	for i := 0; i < 2; i++ {
		e.p.reset()
		i := i
		e.p.ending = func() (*pbt.TradeCompleteReply, error) {
			if i == 0 {
				return nil, errors.New("unavailable")
			}
			return &pbt.TradeCompleteReply{SwapFail: &pbswap.SwapFail{FailureMessage: "no"}}, nil
		}
		if _, err := e.trade(t, true, "fails at completion"); err == nil {
			e.bad("no-complete", "%s: the client reports success though the provider did not complete (case %d)", t, i)
		}
	}
	// and at last the real thing
	e.p.reset()
	e.p.forward = true
	e.p.mu.Lock()
	e.p.prices = map[string]*pbt.MarketPriceReply{}
	e.p.mu.Unlock()
	before := len(e.c.Broadcasts())
	txid, err := e.trade(t, true, "is the daemon")
	if err != nil {
		e.bad("honest", "%s: the trade with the daemon fails: %s", t, err)
		return
	}
	if b := e.c.Broadcasts(); len(b) != before+1 || b[before].Txid != txid || b[before].Err != "" {
		e.bad("honest", "%s: the transaction %s of the trade is not the one broadcast", t, txid)
		return
	}
	r.Count("honest trades", 1)
	sim.Quiesce()
}

func make5() []uint64 { return rep(5000, 10) }

func rep(v uint64, n int) []uint64 {
	l := make([]uint64, n)
	for i := range l {
		l[i] = v
	}
	return l
}

func main() {
	r := sim.Start("the client proposes on its caller's terms and no signature leaves it for a transaction that does otherwise")
	defer r.Finish()
	if sim.Shard() >= 0 {
		r.GuardV("C25/harness", "monitor", func() { shard(r) })
		return
	}
	r.RunShards(r.N(8, 40))
	r.NeedAtLeast("honest trades", 8)
	r.NeedAtLeast("lies told", 300)
	r.NeedAtLeast("lies refused", 200)
	r.NeedAtLeast("proposals", 300)
	r.NeedAtLeast("signatures seen", 16)
}
