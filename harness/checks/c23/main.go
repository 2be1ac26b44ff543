// Monitor of C23: the explorer clients against fake servers.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	stdlog "log"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/elements"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/vulpemventures/go-elements/transaction"
)

var quiet = stdlog.New(ioutil.Discard, "", 0)

type env struct {
	r    *sim.Rec
	g    *sim.Rng
	name string
	w    *world
	s    *server
	c    explorer.Service
	tag  string
}

func (e *env) bad(sig, f string, a ...interface{}) {
	e.r.Violate(e.name+":"+sig, "%s %s", e.tag, fmt.Sprintf(f, a...))
}

// call runs a client call that must come back.
func (e *env) call(what string, f func()) bool {
	ok, stack := sim.Within(60*time.Second, f)
	if !ok {
		e.bad("hang:"+what, "%s did not come back within a minute: %.300s", what, stack)
	}
	return ok
}

func (e *env) connect() error {
	var err error
	if e.name == "esplora" {
		e.c, err = esplora.NewService(e.s.URL+"/"+e.s.gen, 5000)
	} else {
		u, _ := url.Parse(e.s.URL)
		e.c, err = elements.NewService(fmt.Sprintf("http://%s:pass@%s", e.s.gen, u.Host), nil)
	}
	return err
}

func newEnv(r *sim.Rec, g *sim.Rng, name string, nAddr, nTx int, delays bool) *env {
	e := &env{r: r, g: g, name: name, w: newWorld(g, nAddr, nTx)}
	h := esploraHandler
	if name == "elements" {
		h = elementsHandler
	}
	e.s = newServer(e.w, g.Fork(), delays, h)
	e.arm(nil)
	return e
}

// arm makes the server answer the calls of a new client with a fault.
func (e *env) arm(f *fault) {
	e.s.arm(nil)
	if err := e.connect(); err != nil {
		e.bad("connect", "a sound server is refused: %v", err)
	}
	e.s.mu.Lock()
	e.s.f = f
	e.s.mu.Unlock()
}

// keysFor are the keys of the given addresses among others, in any order.
func (e *env) keysFor(as []*wAddr) [][]byte {
	keys := [][]byte{}
	for _, a := range as {
		keys = append(keys, a.key)
	}
	for i := e.g.Intn(3); i > 0; i-- {
		keys = append(keys, sim.RandBytes(32))
	}
	out := make([][]byte, len(keys))
	for i, j := range e.g.Perm(len(keys)) {
		out[i] = keys[j]
	}
	return out
}

func (e *env) some(n int) []*wAddr {
	res := []*wAddr{}
	for _, i := range e.g.Perm(len(e.w.addrs)) {
		if len(res) < n {
			res = append(res, e.w.addrs[i])
		}
	}
	return res
}

func addrsOf(as []*wAddr) []string {
	l := []string{}
	for _, a := range as {
		l = append(l, a.addr)
	}
	return l
}

// wantUtxos lists what the given addresses hold; lost are the transactions
// whose status lookup failed.
func (e *env) wantUtxos(as []*wAddr, revealed bool, lost map[string]bool) string {
	l := []string{}
	for _, a := range as {
		ts, idx := e.w.coins(a)
		for i, t := range ts {
			l = append(l, expectUtxo(t, idx[i], revealed, t.confirmed && !lost[t.id]))
		}
	}
	return sorted(l)
}

func gotUtxos(us []explorer.Utxo) string {
	l := []string{}
	for _, u := range us {
		l = append(l, describeUtxo(u))
	}
	return sorted(l)
}

func (e *env) checkBlinders(us []explorer.Utxo) {
	if e.name != "esplora" {
		return
	}
	for _, u := range us {
		if !u.IsConfidential() || !u.IsRevealed() {
			continue
		}
		if !opens(u) {
			e.bad("blinders", "blinders of %s:%d do not open its commitments", u.Hash(), u.Index())
		}
	}
}

// checkParse makes sure that the prevout handed to the wallet is the output.
func (e *env) checkParse(us []explorer.Utxo) {
	for _, u := range us {
		t := e.w.byID[u.Hash()]
		if t == nil || int(u.Index()) >= len(t.outs) {
			continue
		}
		in, out, err := u.Parse()
		if err != nil {
			e.bad("parse", "%s:%d: %v", u.Hash(), u.Index(), err)
			continue
		}
		o := t.outs[u.Index()].out
		if sim.InHash(in) != t.id || in.Index != u.Index() || hex.EncodeToString(out.Asset) != hex.EncodeToString(o.Asset) || hex.EncodeToString(out.Value) != hex.EncodeToString(o.Value) || hex.EncodeToString(out.Script) != hex.EncodeToString(o.Script) {
			e.bad("parse", "%s:%d is parsed to %s:%d asset %x value %x script %x", u.Hash(), u.Index(), sim.InHash(in), in.Index, out.Asset, out.Value, out.Script)
		}
	}
}

// ops are the calls of a client. Each returns what went wrong according to the
// oracle: err is the client's error, wrong a difference to what is expected.
type result struct {
	err   error
	wrong string
}

func (e *env) utxos(one bool, lost func() map[string]bool) result {
	as := e.some(1 + e.g.Intn(len(e.w.addrs)))
	if one {
		as = as[:1]
	}
	keys := e.keysFor(as)
	revealed := true
	if e.name == "esplora" && e.g.Chance(5) {
		keys, revealed = nil, false
	}
	var us []explorer.Utxo
	var err error
	if !e.call("GetUnspents", func() {
		if one {
			us, err = e.c.GetUnspents(as[0].addr, keys)
		} else {
			us, err = e.c.GetUnspentsForAddresses(addrsOf(as), keys)
		}
	}) {
		return result{err: fmt.Errorf("hang")}
	}
	if err != nil {
		return result{err: err}
	}
	got := gotUtxos(us)
	want := e.wantUtxos(as, revealed, lost())
	if got != want && strings.Replace(got, "conf=true", "conf=false", -1) == strings.Replace(want, "conf=true", "conf=false", -1) && len(lost()) > 0 {
		// a lookup of the status may have failed for one coin of a transaction
		// and worked for another one
		bad := false
		g, w := strings.Split(got, "\n"), strings.Split(e.wantUtxos(as, revealed, nil), "\n")
		_ = w
		for _, l := range g {
			id := strings.Split(l, ":")[0]
			if strings.Contains(l, "conf=true") && !e.w.byID[id].confirmed || strings.Contains(l, "conf=false") && e.w.byID[id].confirmed && !lost()[id] {
				bad = true
			}
		}
		if !bad {
			want = got
		}
	}
	e.r.Count("coins reported", int64(len(us)))
	if got == want {
		e.checkBlinders(us)
		e.checkParse(us)
		return result{}
	}
	return result{wrong: diff(got, want)}
}

func none() map[string]bool { return nil }

func (e *env) tx() *wTx { return e.w.txs[e.g.Intn(len(e.w.txs))] }

func (e *env) op(name string, lost func() map[string]bool) result {
	var err error
	switch name {
	case "GetUnspents":
		return e.utxos(true, lost)
	case "GetUnspentsForAddresses":
		return e.utxos(false, lost)
	case "GetTransaction":
		t := e.tx()
		var got explorer.Transaction
		if !e.call(name, func() { got, err = e.c.GetTransaction(t.id) }) {
			return result{err: fmt.Errorf("hang")}
		}
		if err != nil {
			return result{err: err}
		}
		if got == nil || reflect.ValueOf(got).IsNil() {
			return result{wrong: "nil transaction"}
		}
		size := t.tx.VirtualSize()
		if e.name == "elements" {
			size = len(t.hx) / 2
		}
		g, w := gotTx(got, true), t.expect(true, size)
		if g != w {
			return result{wrong: diff(g, w)}
		}
	case "GetTransactionHex":
		t := e.tx()
		var got string
		e.call(name, func() { got, err = e.c.GetTransactionHex(t.id) })
		if err == nil && got != t.hx {
			return result{wrong: fmt.Sprintf("%.60s... for %s", got, t.id)}
		}
	case "IsTransactionConfirmed":
		t := e.tx()
		var got bool
		e.call(name, func() { got, err = e.c.IsTransactionConfirmed(t.id) })
		if err == nil && got != t.confirmed {
			return result{wrong: fmt.Sprintf("%v for a transaction with confirmed=%v", got, t.confirmed)}
		}
	case "GetTransactionStatus":
		t := e.tx()
		var got map[string]interface{}
		e.call(name, func() { got, err = e.c.GetTransactionStatus(t.id) })
		if err == nil {
			var want map[string]interface{}
			json.Unmarshal([]byte(enc(statusJSON(t))), &want)
			if enc(got) != enc(want) {
				return result{wrong: fmt.Sprintf("%s instead of %s", enc(got), enc(want))}
			}
		}
	case "GetTransactionsForAddress":
		a := e.w.addrs[e.g.Intn(len(e.w.addrs))]
		var got []explorer.Transaction
		e.call(name, func() { got, err = e.c.GetTransactionsForAddress(a.addr, a.key) })
		if err == nil {
			g, w := []string{}, []string{}
			for _, t := range got {
				g = append(g, gotTx(t, false))
			}
			for _, t := range e.w.txsOf(a) {
				w = append(w, t.expect(false, len(t.hx)/2))
			}
			if sorted(g) != sorted(w) {
				return result{wrong: diff(sorted(g), sorted(w))}
			}
			e.r.Count("transactions of addresses", int64(len(got)))
		}
	case "GetBlockHeight":
		var got int
		e.call(name, func() { got, err = e.c.GetBlockHeight() })
		if err == nil && got != e.w.height {
			return result{wrong: fmt.Sprintf("%d instead of %d", got, e.w.height)}
		}
	case "BroadcastTransaction":
		t := e.tx()
		id := e.g.Hex(32)
		e.s.mu.Lock()
		e.s.reply = id
		n := len(e.s.posted)
		e.s.mu.Unlock()
		var got string
		e.call(name, func() { got, err = e.c.BroadcastTransaction(t.hx) })
		e.s.mu.Lock()
		p := append([]string{}, e.s.posted[n:]...)
		e.s.mu.Unlock()
		if len(p) != 1 || p[0] != t.hx {
			return result{wrong: fmt.Sprintf("the server was sent %d transactions, %.60s", len(p), strings.Join(p, ","))}
		}
		if err == nil && got != id {
			return result{wrong: fmt.Sprintf("%s instead of %s", got, id)}
		}
	}
	return result{err: err}
}

var opNames = []string{"GetUnspents", "GetUnspentsForAddresses", "GetTransaction", "GetTransactionHex", "IsTransactionConfirmed",
	"GetTransactionStatus", "GetTransactionsForAddress", "GetBlockHeight", "BroadcastTransaction"}

// deps are the endpoints a call relies on.
var deps = map[string]map[string][]string{
	"esplora": {
		"GetUnspents": {"utxo", "hex"}, "GetUnspentsForAddresses": {"utxo", "hex"},
		"GetTransaction": {"hex", "status"}, "GetTransactionHex": {"hex"}, "IsTransactionConfirmed": {"status"},
		"GetTransactionStatus": {"status"}, "GetTransactionsForAddress": {"txs"}, "GetBlockHeight": {"height"},
		"BroadcastTransaction": {"broadcast"},
	},
	"elements": {
		"GetUnspents":             {"listlabels", "importmulti", "listunspent", "getrawtransaction-hex"},
		"GetUnspentsForAddresses": {"listlabels", "importmulti", "listunspent", "getrawtransaction-hex"},
		"GetTransaction":          {"getrawtransaction-verbose"}, "GetTransactionHex": {"getrawtransaction-hex"},
		"IsTransactionConfirmed": {"gettransaction"}, "GetTransactionStatus": {"gettransaction", "getblock"},
		"GetTransactionsForAddress": {"listlabels", "importmulti", "listreceivedbyaddress", "getrawtransaction-verbose"},
		"GetBlockHeight":            {"getblockcount"}, "BroadcastTransaction": {"sendrawtransaction"},
	},
}

// faultsFor are ways in which an answer of an endpoint is no answer.
func (e *env) faultsFor(endpoint string) []*fault {
	g := e.g
	say := func(s string) func(string) string { return func(string) string { return s } }
	fs := []*fault{}
	add := func(kind string, status int, body func(string) string) {
		fs = append(fs, &fault{endpoint: endpoint, kind: kind, status: status, body: body})
	}
	// error statuses, with bodies that are fine, empty or explain
	st := []int{400, 401, 403, 404, 409, 429, 500, 502, 503, 504}
	pick := func() int { return st[g.Intn(len(st))] }
	add("status+good body", pick(), nil)
	add("status+empty body", pick(), say(""))
	add("status+text", pick(), say("Service %d Unavailable"))
	add("empty body", 200, say(""))
	add("html", 200, say("<html><body>Bad gateway</body></html>"))
	add("null", 200, say("null"))
	add("wrong type", 200, say([]string{"{}", "[1]", "true", `{"error":"busy"}`, `[null]`, `[[]]`, `"busy"`, "-5", "1.5"}[g.Intn(9)]))
	fs = append(fs, &fault{endpoint: endpoint, kind: "aborted body", abort: true})
	if endpoint != "height" {
		add("truncated", 200, func(s string) string {
			if len(s) < 2 {
				return ""
			}
			return s[:g.Intn(len(s)-1)]
		})
	}
	if endpoint == "hex" || strings.HasPrefix(endpoint, "getrawtransaction") {
		// lengths in the transaction that claim far more than there is
		add("huge length", 200, func(s string) string { return hugeLength(g, s, e.w) })
	}
	if endpoint != "hex" && endpoint != "height" && endpoint != "broadcast" {
		for i := 0; i < 3; i++ {
			add("field", 200, func(s string) string { return breakField(g, s, endpoint) })
		}
	}
	if e.name == "elements" {
		add("result null", 200, say(`{"result":null,"error":null,"id":1}`))
		add("result missing", 200, say(`{"error":null,"id":1}`))
		add("rpc error", 500, say(`{"result":null,"error":{"code":-28,"message":"Loading block index"},"id":1}`))
		add("rpc error 200", 200, func(s string) string {
			return strings.Replace(s, `"error":null`, `"error":{"code":-28,"message":"x"}`, 1)
		})
	}
	return fs
}

// hugeLength overwrites the input count of every transaction of an answer.
func hugeLength(g *sim.Rng, s string, w *world) string {
	for _, t := range w.txs {
		big := t.hx[:10] + []string{"ffffffffffffffffff", "ff00000000ff000000", "feffffff7f", "ff0000000000000080"}[g.Intn(4)] + t.hx[12:]
		s = strings.Replace(s, t.hx, big, -1)
	}
	return s
}

// required fields of the JSON answers, by endpoint.
var required = map[string][]string{
	"utxo": {"txid", "vout", "value", "asset", "status"}, "status": {"confirmed"},
	"txs":         {"txid", "version", "locktime", "vin", "vout", "size", "weight", "status", "confirmed", "sequence", "value", "asset"},
	"listunspent": {"txid", "vout", "amount", "asset"}, "gettransaction": {"confirmations"},
	"listreceivedbyaddress": {"txids"}, "getrawtransaction-verbose": {"hex", "txid", "size", "weight"}, "importmulti": {"success"},
}

// optional ones may be missing (an explicit output has no commitment and the
// other way round, the status of a coin is looked up by itself).
var mayMiss = map[string]bool{"utxo status": true}

// breakField removes or spoils a required field somewhere in a JSON answer.
// It returns garbage if there is none.
func breakField(g *sim.Rng, s, endpoint string) string {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&v) != nil || len(required[endpoint]) == 0 {
		return s + "}"
	}
	f := required[endpoint][g.Intn(len(required[endpoint]))]
	var sites []map[string]interface{}
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch y := x.(type) {
		case map[string]interface{}:
			if _, ok := y[f]; ok {
				sites = append(sites, y)
			}
			for k, z := range y {
				if k != "prevout" {
					walk(z)
				}
			}
		case []interface{}:
			for _, z := range y {
				walk(z)
			}
		}
	}
	walk(v)
	negative := f != "confirmations" // -1 means conflicted
	if len(sites) == 0 {
		return s + "}"
	}
	m := sites[g.Intn(len(sites))]
	if g.Bool() && !mayMiss[endpoint+" "+f] {
		delete(m, f)
	} else {
		switch m[f].(type) {
		case string:
			m[f] = []interface{}{12, "zz", "", []string{"a"}, "abc"}[g.Intn(5)]
		case bool:
			m[f] = []interface{}{"true", 1, []string{}}[g.Intn(3)]
		case json.Number:
			m[f] = []interface{}{"12", []string{}, js{}, -1.5}[g.Intn(4)]
			if !negative {
				m[f] = "12"
			}
		default:
			m[f] = []interface{}{"12", 5, true}[g.Intn(3)]
		}
	}
	return enc(v)
}

// clean runs calls against sound answers.
func (e *env) clean(n int) {
	for i := 0; i < n; i++ {
		name := opNames[e.g.Intn(len(opNames))]
		e.tag = name + " of a sound server"
		res := e.op(name, none)
		e.r.Eval(e.name + " clean " + name)
		e.r.Count(e.name+" sound answers", 1)
		if res.err != nil {
			e.bad("error:"+name, "%v", res.err)
		} else if res.wrong != "" {
			e.bad("wrong:"+name, "%s", res.wrong)
		}
	}
}

// faulty runs every call with every fault of every endpoint it relies on.
func (e *env) faulty() {
	for _, name := range opNames {
		for _, ep := range deps[e.name][name] {
			for _, f := range e.faultsFor(ep) {
				if e.g.Bool() && strings.HasPrefix(name, "GetUnspents") && (ep == "hex" || ep == "getrawtransaction-hex") {
					f.skip = e.g.Intn(4)
				}
				if ep == "importmulti" {
					e.s.mu.Lock()
					e.s.imports = map[string]bool{}
					e.s.mu.Unlock()
				}
				e.tag = fmt.Sprintf("%s with %s (%d) of %s", name, f.kind, f.status, ep)
				e.arm(f)
				e.r.Sample(e.tag)
				res := e.op(name, none)
				hits, _ := e.s.fired()
				if hits == 0 {
					// not asked this time; the answer must be right then
					if res.err != nil || res.wrong != "" {
						e.bad("unfaulted:"+name, "%v %s", res.err, res.wrong)
					}
					continue
				}
				e.r.Eval(e.name + " " + name + " " + ep + " " + f.kind)
				e.r.Count(e.name+" faulty answers", int64(hits))
				if res.err == nil {
					e.bad("fault-hidden:"+name+":"+ep+":"+f.kind, "no error but an answer (%s)", orEqual(res.wrong))
				}
			}
		}
	}
	if e.name == "esplora" {
		// a failed status lookup of a coin
		for _, f := range e.faultsFor("status") {
			e.tag = fmt.Sprintf("unspents with %s (%d) of status", f.kind, f.status)
			if e.g.Bool() {
				f.skip = e.g.Intn(4)
			}
			e.arm(f)
			res := e.utxos(e.g.Bool(), func() map[string]bool { _, m := e.s.fired(); return m })
			e.r.Eval("esplora unspents status " + f.kind)
			if res.wrong != "" {
				e.bad("wrong:status-lookup", "%s", res.wrong)
			}
		}
		e.arm(nil)
		e.foreignKeys()
		e.twice()
	} else {
		e.arm(nil)
		e.s.mu.Lock()
		e.s.imports, e.s.importFails = map[string]bool{}, true
		e.s.mu.Unlock()
		for _, name := range []string{"GetUnspents", "GetUnspentsForAddresses", "GetTransactionsForAddress"} {
			e.tag = name + " of an address the node refuses to watch"
			if res := e.op(name, none); res.err == nil {
				e.bad("fault-hidden:import:"+name, "no error but an answer (%s)", orEqual(res.wrong))
			}
			e.r.Eval("elements refused import " + name)
		}
		e.s.mu.Lock()
		e.s.importFails = false
		e.s.mu.Unlock()
	}
	for _, id := range []string{strings.Repeat("0", 64), e.g.Hex(32), "zz"} {
		e.tag = "unknown transaction"
		for what, f := range map[string]func() error{
			"GetTransaction":         func() error { _, err := e.c.GetTransaction(id); return err },
			"GetTransactionHex":      func() error { _, err := e.c.GetTransactionHex(id); return err },
			"IsTransactionConfirmed": func() error { _, err := e.c.IsTransactionConfirmed(id); return err },
			"GetTransactionStatus":   func() error { _, err := e.c.GetTransactionStatus(id); return err },
		} {
			if f() == nil {
				e.bad("fault-hidden:unknown:"+what, "%s(%s) is no error", what, id)
			}
			e.r.Eval(e.name + " unknown " + what)
		}
	}
}

func orEqual(s string) string {
	if s == "" {
		return "equal to the sound one"
	}
	return s
}

// foreignKeys asks for coins without the keys that reveal them.
func (e *env) foreignKeys() {
	for _, a := range e.w.addrs {
		conf := 0
		ts, idx := e.w.coins(a)
		for i, t := range ts {
			if t.outs[idx[i]].conf {
				conf++
			}
		}
		e.tag = "unspents with foreign keys"
		us, err := e.c.GetUnspents(a.addr, [][]byte{sim.RandBytes(32), sim.RandBytes(32)})
		e.r.Eval(fmt.Sprintf("foreign keys %v", conf > 0))
		if conf > 0 && err == nil {
			e.bad("foreign-keys", "%d coins of which %d cannot be revealed", len(us), conf)
		}
		if conf == 0 && (err != nil || gotUtxos(us) != e.wantUtxos([]*wAddr{a}, true, nil)) {
			e.bad("foreign-keys", "explicit coins: %v", err)
		}
	}
}

// twice lists an address twice.
func (e *env) twice() {
	as := e.some(3)
	l := append(addrsOf(as), as[0].addr)
	e.tag = "unspents of a list with an address twice"
	us, err := e.c.GetUnspentsForAddresses(l, e.keysFor(as))
	if err != nil {
		e.bad("twice", "%v", err)
	} else if gotUtxos(us) != e.wantUtxos(as, true, nil) {
		e.bad("twice", "%s", diff(gotUtxos(us), e.wantUtxos(as, true, nil)))
	}
	e.r.Eval("address twice")
}

// connectFaults opens clients of servers that do not answer properly.
func (e *env) connectFaults() {
	ep := "height"
	if e.name == "elements" {
		ep = "getblockcount"
	}
	for _, f := range e.faultsFor(ep) {
		e.tag = fmt.Sprintf("connect with %s (%d)", f.kind, f.status)
		e.arm(f)
		err := e.connect()
		e.r.Eval(e.name + " connect " + f.kind)
		if err == nil {
			e.bad("fault-hidden:connect", "no error")
		}
	}
	e.arm(nil)
}

// together runs sound calls at the same time on one client.
func (e *env) together(n int) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		x := *e
		x.g = e.g.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 6; k++ {
				name := opNames[x.g.Intn(len(opNames)-1)]
				x.tag = name + " among concurrent calls"
				res := x.op(name, none)
				x.r.Eval(x.name + " concurrent " + name)
				x.r.Count("concurrent calls", 1)
				if res.err != nil {
					x.bad("error:"+name, "%v", res.err)
				} else if res.wrong != "" {
					x.bad("wrong:"+name, "%s", res.wrong)
				}
			}
		}()
	}
	wg.Wait()
}

// stalled is a server that stops answering in the middle.
func stalled(r *sim.Rec, g *sim.Rng, name string, wg *sync.WaitGroup) {
	for _, op := range opNames {
		for _, ep := range deps[name][op] {
			op, ep, fg := op, ep, g.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				e := newEnv(r, fg, name, 2, 6, false)
				defer e.s.stop()
				e.tag = op + " with a stalled answer of " + ep
				e.arm(&fault{endpoint: ep, kind: "stall", stall: true})
				start := time.Now()
				res := e.op(op, none)
				hits, _ := e.s.fired()
				if hits == 0 {
					return
				}
				r.Eval(name + " stalled " + op + " " + ep)
				r.Count("stalled answers", int64(hits))
				if res.err == nil {
					e.bad("fault-hidden:stall:"+op+":"+ep, "no error but an answer after %v (%s)", time.Since(start), orEqual(res.wrong))
				}
			}()
		}
	}
}

// burst is a process whose very first use of the crypto library is revealing
// many coins at the same time, as a client does after a start.
func burst(arg string) {
	out := &transaction.TxOutput{Script: []byte{1}, RangeProof: make([]byte, 100), SurjectionProof: make([]byte, 100)}
	p := strings.Split(arg, ",")
	out.Asset, _ = hex.DecodeString(p[0])
	out.Value, _ = hex.DecodeString(p[1])
	out.Nonce, _ = hex.DecodeString(p[2])
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			transactionutil.UnblindOutput(out, bytes.Repeat([]byte{7}, 32))
		}()
	}
	close(gate)
	wg.Wait()
}

func bursts(r *sim.Rec) {
	_, p := btcec.PrivKeyFromBytes(btcec.S256(), sim.RandBytes(32))
	o, err := sim.ConfOut(sim.LBTC, 1000, []byte{1}, p.SerializeCompressed())
	if err != nil {
		panic("harness: " + err.Error())
	}
	arg := fmt.Sprintf("%x,%x,%x", o.Asset, o.Value, o.Nonce)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i := 0; i < r.N(200, 2000); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			cmd := exec.Command(os.Getenv("VERIF_BIN"))
			cmd.Env = append(os.Environ(), "C23_BURST="+arg)
			b, err := cmd.CombinedOutput()
			if err != nil {
				r.Violate("burst", "revealing coins at the same time right after a start ends the process: %v %.300s", err, b)
			}
			r.Eval("burst")
			r.Count("first-use bursts", 1)
		}()
	}
	wg.Wait()
}

func main() {
	if arg := os.Getenv("C23_BURST"); arg != "" {
		burst(arg)
		return
	}
	r := sim.Start("calls of the esplora and the Elements client against fake servers over generated chains: sound, with every fault of every endpoint, concurrently, stalled; distinct: client, call, endpoint, fault")
	if _, err := esplora.NewService("http://127.0.0.1:1", 100); err == nil {
		r.Violate("esplora:timeout", "a timeout below 5 s is accepted")
	}
	sh := sim.Shard()
	if sh < 0 {
		bursts(r)
		r.RunShards(8)
		need(r)
		r.Finish()
		return
	}
	wg := &sync.WaitGroup{}
	if sh == 0 {
		stalled(r, r.Rng("stall"), "esplora", wg)
	}
	if sh == 1 && r.Thorough() {
		stalled(r, r.Rng("stall elements"), "elements", wg)
	}
	for i := 0; i < r.N(1, 30); i++ {
		for _, name := range []string{"esplora", "elements"} {
			g := r.Rng(fmt.Sprint(name, i))
			e := newEnv(r, g, name, 1+g.Intn(5), 1+g.Intn(10), g.Bool())
			e.connectFaults()
			e.clean(40)
			e.faulty()
			e.clean(10)
			e.together(8)
			e.s.stop()
		}
	}
	wg.Wait()
	r.Finish()
}

func need(r *sim.Rec) {
	r.NeedAtLeast("esplora faulty answers", 500)
	r.NeedAtLeast("elements faulty answers", 500)
	r.NeedAtLeast("esplora sound answers", 300)
	r.NeedAtLeast("coins reported", 500)
	r.NeedAtLeast("stalled answers", 8)
	r.Assume("a coin whose status lookup fails may be reported as unconfirmed")
	r.Assume("the client reads the first page of an address' transactions only")
	r.Assume("faults that leave a well-formed answer are not told from a different chain")
}
