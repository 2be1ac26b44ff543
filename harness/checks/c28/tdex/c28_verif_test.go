// Monitor of C28: fragmented deposits add up to the funds sent.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CLI") != "" {
		main()
		os.Exit(0)
	}
	verifRun()
}

// op is the operator service the tool talks to.
type verifOp struct {
	pboperator.UnimplementedOperatorServer
	mu        sync.Mutex
	ring      *sim.KeyRing
	next      int
	given     []*sim.KeyAt
	asked     int
	mbase     string
	mquote    string
	feeClaims [][]*pboperator.TxOutpoint
	mktClaims []*pboperator.ClaimMarketDepositRequest
}

func (o *verifOp) give(acc int, n int64) []*sim.KeyAt {
	l := []*sim.KeyAt{}
	if n <= 0 {
		n = 1
	}
	for ; n > 0; n-- {
		k := o.ring.At(acc, 0, o.next)
		o.next++
		l = append(l, k)
	}
	o.given = append(o.given, l...)
	o.asked++
	return l
}

func (o *verifOp) DepositFeeAccount(_ context.Context, q *pboperator.DepositFeeAccountRequest) (*pboperator.DepositFeeAccountReply, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	r := &pboperator.DepositFeeAccountReply{}
	for _, k := range o.give(0, q.GetNumOfAddresses()) {
		r.AddressWithBlindingKey = append(r.AddressWithBlindingKey, &pbtypes.AddressWithBlindingKey{Address: k.Address, Blinding: hex.EncodeToString(k.Blind)})
	}
	return r, nil
}

func (o *verifOp) DepositMarket(_ context.Context, q *pboperator.DepositMarketRequest) (*pboperator.DepositMarketReply, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.mbase, o.mquote = q.GetMarket().GetBaseAsset(), q.GetMarket().GetQuoteAsset()
	r := &pboperator.DepositMarketReply{}
	for _, k := range o.give(5, q.GetNumOfAddresses()) {
		r.Addresses = append(r.Addresses, k.Address)
	}
	return r, nil
}

func (o *verifOp) ClaimFeeDeposit(_ context.Context, q *pboperator.ClaimFeeDepositRequest) (*pboperator.ClaimFeeDepositReply, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.feeClaims = append(o.feeClaims, q.GetOutpoints())
	return &pboperator.ClaimFeeDepositReply{}, nil
}

func (o *verifOp) ClaimMarketDeposit(_ context.Context, q *pboperator.ClaimMarketDepositRequest) (*pboperator.ClaimMarketDepositReply, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.mktClaims = append(o.mktClaims, q)
	return &pboperator.ClaimMarketDepositReply{}, nil
}

func esploraServer(c *sim.Chain) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		p := strings.Split(strings.Trim(q.URL.Path, "/"), "/")
		fail := func(err error) { http.Error(w, err.Error(), 400) }
		switch {
		case q.Method == "POST":
			b, _ := ioutil.ReadAll(q.Body)
			id, err := c.BroadcastTransaction(strings.TrimSpace(string(b)))
			if err != nil {
				fail(err)
				return
			}
			c.Confirm(id)
			io.WriteString(w, id)
		case len(p) == 3 && p[0] == "tx" && p[2] == "hex":
			h, err := c.GetTransactionHex(p[1])
			if err != nil {
				fail(err)
				return
			}
			io.WriteString(w, h)
		case len(p) == 3 && p[0] == "tx" && p[2] == "status":
			s, err := c.GetTransactionStatus(p[1])
			if err != nil {
				fail(err)
				return
			}
			json.NewEncoder(w).Encode(s)
		case len(p) == 3 && p[0] == "blocks":
			io.WriteString(w, "100")
		default:
			http.Error(w, "not found", 404)
		}
	}))
}

type verifEnv struct {
	r *sim.Rec
	g *sim.Rng
}

func (e *verifEnv) bad(kind, format string, a ...interface{}) {
	e.r.Violate("C28/"+kind, format, a...)
}

// amount is a sum to deposit.
func (e *verifEnv) amount(edges ...uint64) uint64 {
	switch e.g.Intn(4) {
	case 0:
		return 1 + e.g.Log(20)
	case 1:
		return 1 + e.g.Log(50)
	case 2:
		v := edges[e.g.Intn(len(edges))]
		if v < 100 {
			return 1 + uint64(e.g.Intn(2*int(v)))
		}
		return v + uint64(e.g.Intn(200)) - 99
	}
	return 50000 + e.g.Log(40)
}

type deposit struct {
	txid  string
	coins map[string]uint64 // asset by the sum of the coins for the tool
}

func (e *verifEnv) round(fee bool) {
	g := e.g
	c := sim.NewChain()
	es := esploraServer(c)
	defer es.Close()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	op := &verifOp{ring: sim.NewKeyRing(sim.Words)}
	srv := grpc.NewServer()
	pboperator.RegisterOperatorServer(srv, op)
	go srv.Serve(lis)
	defer srv.Stop()
	dir, err := ioutil.TempDir(e.r.Dir, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	state := map[string]string{"rpcserver": lis.Addr().String(), "no_macaroons": "true", "network": "regtest", "explorer_url": es.URL}
	walletKey := "market_wallet"
	if fee {
		walletKey = "fee_wallet"
	}
	resume := g.Bool()
	k := op.ring.At(9, 0, g.Intn(1000))
	if resume {
		state[walletKey] = fmt.Sprintf(`{"privateKey": "%x", "blindingKey": "%x"}`, k.Priv, k.Blind)
	}
	statePath := filepath.Join(dir, "state.json")
	b, _ := json.Marshal(state)
	if err := ioutil.WriteFile(statePath, b, 0644); err != nil {
		panic(err)
	}
	readState := func() map[string]string {
		m := map[string]string{}
		b, _ := ioutil.ReadFile(statePath)
		json.Unmarshal(b, &m)
		return m
	}

	quote := sim.NewAsset()
	base, quoteSum := e.amount(5000, 10000, 2500, 700, 750000, 760000, 770000), uint64(0)
	if !fee {
		base, quoteSum = e.amount(50, 9000, 10000, 15000, 50000), e.amount(2, 50, 100, 50000)
		switch g.Intn(12) {
		case 0:
			base = 0
		case 1:
			quoteSum = 0
		}
	} else if base > 100000 && !g.Chance(9) {
		// not always the many outputs
		base = 5000 + base%100000
	}
	// the deposits are made to the wallet's address in some transactions
	deposits := []string{}
	sum := map[string]uint64{}
	spendable := map[sim.Outpoint]bool{}
	cmdName := "fragmentmarket"
	if fee {
		cmdName = "fragmentfee"
	}
	last := ""
	what := fmt.Sprintf("%v resume %v base %d quote %d", cmdName, resume, base, quoteSum)
	fund := func() {
		pays := []sim.Pay{}
		pay := func(asset string, v uint64) {
			for v > 0 {
				x := v
				if g.Chance(3) && v > 1 {
					x = 1 + uint64(g.Range(0, v-1))
				}
				a := k.Address
				if g.Chance(4) {
					a = k.Plain
				}
				pays = append(pays, sim.Pay{Addr: a, Asset: asset, Value: x})
				sum[asset] += x
				v -= x
				if len(pays) > 6 {
					pays[len(pays)-1].Value += v
					sum[asset] += v
					v = 0
				}
			}
		}
		pay(sim.LBTC, base)
		pay(quote, quoteSum)
		if len(pays) == 0 {
			pay(sim.LBTC, 1)
		}
		for _, i := range g.Perm(len(pays)) {
			p := pays[i]
			l := []sim.Pay{p}
			if g.Chance(4) { // someone else's output
				l = append(l, sim.Pay{Addr: op.ring.At(8, 0, g.Intn(50)).Address, Asset: sim.LBTC, Value: 1000})
			}
			ops := c.MustFund(true, l...)
			spendable[ops[0]] = true
			deposits = append(deposits, ops[0].Hash)
		}
		if fee && g.Chance(4) || !fee && quoteSum > 0 && g.Chance(8) { // another asset sent by mistake is not fragmented
			ops := c.MustFund(true, sim.Pay{Addr: k.Address, Asset: sim.NewAsset(), Value: 100})
			last = ops[0].Hash
			what += " one more asset"
		}
		if g.Chance(8) { // an output to the wallet that its key does not open
			o, err := sim.ConfOut(sim.LBTC, 777, k.Script, sim.BlindPub(op.ring.At(7, 0, 0).Address))
			if err != nil {
				panic(err)
			}
			ops, err := c.FundOuts(true, o)
			if err != nil {
				panic(err)
			}
			deposits = append(deposits, ops[0].Hash)
			what += " a coin that does not open"
		}
	}
	args := []string{cmdName}
	if !fee && g.Bool() {
		args = append(args, "--base_asset", sim.LBTC, "--quote_asset", quote)
	}
	stdin := []string{}
	if resume {
		fund()
		for i, t := range deposits {
			if i == 0 || g.Bool() {
				args = append(args, "--txid", t)
				if g.Chance(5) {
					args = append(args, "--txid", t)
					what += " txid twice"
				}
				if g.Chance(4) {
					stdin = append(stdin, t)
					what += " txid typed too"
				}
			} else {
				stdin = append(stdin, t)
			}
		}
		if last != "" {
			args = append(args, "--txid", last)
		}
	}
	broken := g.Chance(6)
	if broken {
		c.SetFault(func(o, _ string) error {
			if o == "BroadcastTransaction" {
				return fmt.Errorf("explorer not available")
			}
			return nil
		})
		what += " broken explorer"
	}
	var buf *lockedBuffer
	run := func(args []string, in func(io.Writer)) (int, string) {
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "VERIF_CLI=1", "TDEX_OPERATOR_DATADIR="+dir)
		var eb lockedBuffer
		buf = &eb
		cmd.Stdout, cmd.Stderr = &eb, &eb
		w, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done := make(chan struct{})
		go func() { in(w); close(done) }()
		end := make(chan error, 1)
		go func() { <-done; end <- cmd.Wait() }()
		select {
		case <-end:
		case <-time.After(120 * time.Second):
			cmd.Process.Kill()
			e.bad("hang", "the tool does not end: %s", what)
			return -9, ""
		}
		w.Close()
		return cmd.ProcessState.ExitCode(), eb.String()
	}
	rc, out := run(args, func(w io.Writer) {
		if !resume {
			for i := 0; i < 2000; i++ {
				if s := readState()[walletKey]; s != "" {
					m := map[string]string{}
					if json.Unmarshal([]byte(s), &m) != nil {
						continue
					}
					p, _ := hex.DecodeString(m["privateKey"])
					bl, _ := hex.DecodeString(m["blindingKey"])
					k = sim.PlainKey(p, bl)
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			fund()
			stdin = append(stdin, deposits...)
			if g.Chance(6) {
				stdin = append(stdin, deposits[0])
				what += " txid typed twice"
			}
			if last != "" {
				stdin = append(stdin, last)
			}
		}
		if g.Chance(6) {
			// a wrong one first, the tool asks again
			io.WriteString(w, sim.NewAsset()+"\n")
			for i := 0; i < 4000 && !strings.Contains(buf.String(), "please retry"); i++ {
				time.Sleep(5 * time.Millisecond)
			}
		}
		io.WriteString(w, strings.Join(stdin, " ")+"\n")
	})
	if rc == -9 {
		return
	}
	e.r.Eval(args[0])
	if broken && rc != 0 && !strings.Contains(out, "panic:") {
		if len(c.Broadcasts()) > 0 {
			// the funds are still there: the tool is run again
			if readState()[walletKey] == "" {
				e.bad("wallet-lost", "the wallet of a deposit that could not be sent is lost: %s", what)
				return
			}
			e.r.Count("deposits resumed", 1)
			c.SetFault(nil)
			again := []string{args[0]}
			for _, t := range deposits {
				again = append(again, "--txid", t)
			}
			if len(args) > 1 && args[1] == "--base_asset" {
				again = append(again, args[1:5]...)
			}
			broken = false
			rc, out = run(again, func(w io.Writer) { io.WriteString(w, "\n") })
			if rc == -9 {
				return
			}
		}
	}
	e.judge(fee, what, rc, out, c, op, sum, quote, spendable, broken)
	if rc == 0 {
		if readState()[walletKey] != "" {
			e.r.Count("wallets kept", 1)
		}
	} else if s := readState()[walletKey]; s == "" {
		e.bad("wallet-lost", "the wallet of a deposit that failed is lost: %s", what)
	}
}

func (e *verifEnv) judge(fee bool, what string, rc int, out string, c *sim.Chain, op *verifOp, sum map[string]uint64, quote string, spendable map[sim.Outpoint]bool, broken bool) {
	if i := strings.Index(out, "panic:"); i >= 0 || rc == 2 {
		if i < 0 {
			i = 0
		}
		t := out[i:]
		if len(t) > 900 {
			t = t[:900]
		}
		e.bad("panic", "the tool panics: %s: %s", what, strings.ReplaceAll(t, "\n", " | "))
		return
	}
	base, q := sum[sim.LBTC], sum[quote]
	var tx *transaction.Transaction
	var txid, hx string
	for _, b := range c.Broadcasts() {
		if b.Forced {
			continue
		}
		if b.Err != "" {
			e.bad("invalid", "the tool broadcasts an invalid transaction: %s: %s", what, b.Err)
			return
		}
		if tx != nil {
			e.bad("twice", "the tool broadcasts two transactions: %s", what)
			return
		}
		t, err := transaction.NewTxFromHex(b.Hex)
		if err != nil {
			panic(err)
		}
		tx, txid, hx = t, b.Txid, b.Hex
	}
	if tx == nil {
		if rc == 0 {
			e.bad("silent", "the tool sends nothing and reports no error: %s: %s", what, tail(out))
			return
		}
		e.r.Count("refused", 1)
		enough := base >= 50000
		if enough && !broken {
			e.bad("refused", "the tool does not fragment enough funds: %s: %s", what, tail(out))
		}
		return
	}
	if rc != 0 {
		e.bad("failed", "the tool fails after sending the funds: %s: %s", what, tail(out))
		return
	}
	// inputs
	for _, in := range tx.Inputs {
		o := sim.Outpoint{Hash: sim.InHash(in), Index: in.Index}
		if !spendable[o] {
			e.bad("inputs", "the transaction spends %s, which was not deposited: %s", o, what)
		}
		delete(spendable, o)
	}
	if len(spendable) > 0 {
		e.bad("inputs", "the transaction leaves %d deposited coins: %s", len(spendable), what)
	}
	// outputs
	var got = map[string]uint64{}
	var frag = map[string][]uint64{}
	var feeValue uint64
	used := map[string]bool{}
	n := 0
	for i, o := range tx.Outputs {
		if len(o.Script) == 0 {
			x, ok := sim.OpenOut(o, nil)
			if !ok || x.Asset != sim.LBTC || x.Value == 0 || feeValue != 0 {
				e.bad("fee", "the network fee is wrong: %s", what)
				return
			}
			feeValue = x.Value
			continue
		}
		n++
		var key *sim.KeyAt
		for _, k := range op.given {
			if bytes.Equal(k.Script, o.Script) {
				key = k
			}
		}
		if key == nil {
			e.bad("outputs", "output %d pays none of the given addresses: %s", i, what)
			return
		}
		if used[key.Address] {
			e.bad("outputs", "output %d pays an address again: %s", i, what)
		}
		used[key.Address] = true
		x, ok := sim.OpenOut(o, key.Blind)
		if !ok {
			e.bad("outputs", "output %d cannot be opened with the address's key: %s", i, what)
			return
		}
		if x.Value == 0 {
			e.bad("zero", "output %d is empty: %s", i, what)
		}
		got[x.Asset] += x.Value
		frag[x.Asset] = append(frag[x.Asset], x.Value)
	}
	if got[sim.LBTC]+feeValue != base || (!fee && got[quote] != q) {
		e.bad("sum", "fragments add up to %d and %d, the fee is %d: %s", got[sim.LBTC], got[quote], feeValue, what)
	}
	// the fee
	if size := sim.VSize(hx); feeValue < uint64(float64(size)*0.1) {
		e.bad("fee", "the network fee of %d is too low for %d bytes: %s", feeValue, size, what)
	} else if feeValue > uint64(size)/2+100 {
		e.bad("fee", "the network fee of %d is too high for %d bytes: %s", feeValue, size, what)
	}
	// the fragments
	if fee {
		if len(frag[sim.LBTC]) > 150 {
			e.bad("ratio", "%d fragments: %s", len(frag[sim.LBTC]), what)
		}
		for i, v := range frag[sim.LBTC] {
			if v < 5000 && i != len(frag[sim.LBTC])-1 {
				e.bad("ratio", "fragment %d is %d: %s", i, v, what)
			}
		}
		if min := int(base / 5000); base > 20000 && base < 700000 && len(frag[sim.LBTC]) < min-1-int(feeValue/5000) {
			e.bad("ratio", "only %d fragments of %d: %s", len(frag[sim.LBTC]), base, what)
		}
	} else {
		ratio(e, what, frag[sim.LBTC], base, feeValue)
		ratio(e, what, frag[quote], q, 0)
	}
	// the claims
	claimed := map[string]bool{}
	if fee {
		if len(op.feeClaims) != 1 || len(op.mktClaims) != 0 {
			e.bad("claims", "%d claims are made: %s", len(op.feeClaims), what)
			return
		}
		for _, o := range op.feeClaims[0] {
			claimed[fmt.Sprintf("%s:%d", o.Hash, o.Index)] = true
		}
	} else {
		if len(op.mktClaims) != 1 || len(op.feeClaims) != 0 {
			e.bad("claims", "%d claims are made: %s", len(op.mktClaims), what)
			return
		}
		m := op.mktClaims[0].GetMarket()
		if base > 0 && m.GetBaseAsset() != sim.LBTC || q > 0 && m.GetQuoteAsset() != quote {
			e.bad("claims", "claimed for market %v: %s", m, what)
		}
		for _, o := range op.mktClaims[0].GetOutpoints() {
			claimed[fmt.Sprintf("%s:%d", o.Hash, o.Index)] = true
		}
	}
	for i, o := range tx.Outputs {
		if claimed[fmt.Sprintf("%s:%d", txid, i)] != (len(o.Script) > 0) {
			e.bad("claims", "output %d claimed %v: %s", i, len(o.Script) == 0, what)
		}
	}
	if len(claimed) != n {
		e.bad("claims", "%d outputs claimed of %d: %s", len(claimed), n, what)
	}
	e.r.Count("deposits fragmented", 1)
	e.r.Count("fragments", int64(n))
	e.r.Eval(fmt.Sprintf("%v %d coins %d+%d fragments", fee, len(tx.Inputs), len(frag[sim.LBTC]), len(frag[quote])))
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(b)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func tail(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

// ratio compares fragments with the shares of 1x30, 2x15, 3x10 and 5x2 per cent.
func ratio(e *verifEnv, what string, l []uint64, total, fee uint64) {
	if total < 100 {
		return // shares of less than a satoshi
	}
	l = append([]uint64{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	shares := []float64{2, 2, 2, 2, 2, 10, 10, 10, 15, 15, 30}
	if len(l) != len(shares) {
		e.bad("ratio", "%d fragments of %d: %s", len(l), total, what)
		return
	}
	if fee > total/10 {
		return
	}
	// the fee is taken from the largest one
	slack := 12 + float64(total)*1e-9
	left := append([]uint64{}, l...)
	for i := len(shares) - 1; i >= 0; i-- {
		want := float64(total) * shares[i] / 100
		best := -1
		for j, v := range left {
			d := float64(v) - want
			if d < 0 {
				d = -d
			}
			if i == len(shares)-1 {
				d -= float64(fee)
			}
			if d <= slack {
				best = j
			}
		}
		if best < 0 {
			e.bad("ratio", "no fragment of %.0f%% of %d in %v: %s", shares[i], total, l, what)
			return
		}
		left = append(left[:best], left[best+1:]...)
	}
}

// amounts hands many amounts to the functions that split them.
func (e *verifEnv) amounts(n int) {
	for i := 0; i < n; i++ {
		b, q := e.g.Log(62), e.g.Log(62)
		if e.g.Chance(3) {
			b, q = e.g.Log(13), e.g.Log(13)
		}
		var lb, lq []uint64
		if !e.r.GuardV("C28", fmt.Sprintf("fragments of %d and %d", b, q), func() {
			lb, lq = fragmentUnspents(AssetValuePair{BaseValue: b, BaseAsset: "b", QuoteValue: q, QuoteAsset: "q"}, fragmentationMapConfig)
		}) {
			return
		}
		for _, x := range []struct {
			v uint64
			l []uint64
		}{{b, lb}, {q, lq}} {
			s := uint64(0)
			for _, v := range x.l {
				if v == 0 || v > x.v {
					e.bad("zero", "fragments of %d: %v", x.v, x.l)
				}
				s += v
			}
			if s != x.v {
				e.bad("sum", "fragments of %d: %v", x.v, x.l)
			}
			ratio(e, "amounts", x.l, x.v, 0)
		}
		v, min, max := e.g.Log(40), 1+e.g.Log(16), 1+e.g.Intn(300)
		if e.g.Bool() {
			v, min, max = e.g.Log(30), MinFee, MaxNumOfOutputs
		}
		var l []uint64
		if !e.r.GuardV("C28", fmt.Sprintf("fragments of %d by %d up to %d", v, min, max), func() { l = fragmentFeeUnspents(v, min, max) }) {
			return
		}
		s := uint64(0)
		for j, x := range l {
			if x == 0 || x < min && len(l) > 1 || x != min && j < len(l)-1 {
				e.bad("fee-fragments", "fragments of %d by %d: %v", v, min, l)
			}
			s += x
		}
		want := int(max)
		if v/min < uint64(max) {
			want = int(v / min)
		}
		if want == 0 && v > 0 {
			want = 1
		}
		if s != v || len(l) != want {
			e.bad("fee-fragments", "%d fragments of %d by %d up to %d add up to %d", len(l), v, min, max, s)
		}
		e.r.Eval("")
	}
	e.r.Count("amounts split", int64(n))
}

func verifRun() {
	r := sim.Start("fragments are positive, in the ratio, add up with the fee to the deposited coins, all of which are spent, pay the given addresses and are claimed")
	if sim.Shard() < 0 {
		e := &verifEnv{r, r.Rng("amounts")}
		e.amounts(r.N(60000, 1000000))
		r.RunShards(8)
		r.NeedAtLeast("deposits fragmented", 45)
		r.NeedAtLeast("refused", 8)
		r.NeedAtLeast("deposits resumed", 2)
		r.Finish()
		return
	}
	g := r.Rng("c28")
	for i, n := 0, r.N(12, 200); i < n; i++ {
		if r.Violated() {
			break
		}
		e := &verifEnv{r, g.Fork()}
		e.round(i%3 == 0)
	}
	r.Finish()
}
