package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"encoding/hex"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/vulpemventures/go-elements/elementsutil"
)

// fault changes the answer of an endpoint.
type fault struct {
	endpoint string
	kind     string
	status   int
	body     func(good string) string // nil: keep
	abort    bool                     // declare the whole body and send half of it
	stall    bool                     // never finish the body
	skip     int                      // how many requests to answer properly first
}

type server struct {
	mu          sync.Mutex
	w           *world
	g           *sim.Rng
	f           *fault
	ngen        int
	gen         string // the client the fault is meant for
	hits        int    // requests the fault was applied to
	hitIDs      map[string]bool
	seen        map[string]int
	posted      []string
	reply       string // id to answer broadcasts with
	delays      bool
	release     chan struct{}
	imports     map[string]bool // elements labels
	importFails bool
	*httptest.Server
}

func (s *server) arm(f *fault) {
	s.mu.Lock()
	defer s.mu.Unlock()
	// requests that an earlier, failed call left behind are not its business
	s.ngen++
	s.gen = fmt.Sprintf("op%d", s.ngen)
	s.f, s.hits, s.hitIDs = f, 0, map[string]bool{}
}

func (s *server) fired() (int, map[string]bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]bool{}
	for k := range s.hitIDs {
		m[k] = true
	}
	return s.hits, m
}

// send answers a request for what (an id or address) at an endpoint.
func (s *server) send(rw http.ResponseWriter, gen, endpoint, what string, status int, body string) {
	s.mu.Lock()
	s.seen[endpoint]++
	f := s.f
	if f != nil && f.endpoint == endpoint && gen == s.gen {
		if f.skip > 0 {
			f.skip--
			f = nil
		} else {
			s.hits++
			s.hitIDs[what] = true
		}
	} else {
		f = nil
	}
	var d time.Duration
	if s.delays {
		d = time.Duration(s.g.Intn(4000)) * time.Microsecond
	}
	s.mu.Unlock()
	time.Sleep(d)
	if f == nil {
		rw.WriteHeader(status)
		rw.Write([]byte(body))
		return
	}
	if f.body != nil {
		body = f.body(body)
	}
	if f.abort || f.stall {
		rw.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
		rw.WriteHeader(status)
		rw.Write([]byte(body[:len(body)/2]))
		if fl, ok := rw.(http.Flusher); ok {
			fl.Flush()
		}
		if f.stall {
			<-s.release
		}
		panic(http.ErrAbortHandler)
	}
	if f.status != 0 {
		status = f.status
	}
	rw.WriteHeader(status)
	rw.Write([]byte(body))
}

func newServer(w *world, g *sim.Rng, delays bool, h func(s *server, rw http.ResponseWriter, r *http.Request)) *server {
	s := &server{w: w, g: g, seen: map[string]int{}, hitIDs: map[string]bool{}, delays: delays, release: make(chan struct{}), imports: map[string]bool{}}
	s.Server = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { h(s, rw, r) }))
	s.Server.Config.ErrorLog = quiet
	return s
}

func (s *server) stop() {
	close(s.release)
	s.Server.CloseClientConnections()
	s.Server.Close()
}

// ---- esplora ----

func statusJSON(t *wTx) js {
	if !t.confirmed {
		return js{"confirmed": false}
	}
	return js{"confirmed": true, "block_height": t.height, "block_hash": t.hash, "block_time": t.time}
}

func esploraTx(t *wTx) js {
	vin, vout := []js{}, []js{}
	for _, in := range t.tx.Inputs {
		wit := []string{}
		for _, x := range in.Witness {
			wit = append(wit, hex.EncodeToString(x))
		}
		m := js{"txid": hex.EncodeToString(elementsutil.ReverseBytes(in.Hash)), "vout": in.Index,
			"prevout":   js{"scriptpubkey": "51", "scriptpubkey_type": "unknown", "value": 2100000000000000, "asset": sim.LBTC},
			"scriptsig": hex.EncodeToString(in.Script), "scriptsig_asm": "", "is_coinbase": false, "sequence": in.Sequence, "is_pegin": false}
		if len(wit) > 0 {
			m["witness"] = wit
		}
		vin = append(vin, m)
	}
	for _, o := range t.outs {
		m := js{"scriptpubkey": hex.EncodeToString(o.out.Script), "scriptpubkey_asm": "", "scriptpubkey_type": "v0_p2wpkh"}
		if o.conf {
			m["valuecommitment"], m["assetcommitment"] = hex.EncodeToString(o.out.Value), hex.EncodeToString(o.out.Asset)
		} else {
			m["value"], m["asset"] = o.value, o.asset
		}
		vout = append(vout, m)
	}
	return js{"txid": t.id, "version": t.tx.Version, "locktime": t.tx.Locktime, "vin": vin, "vout": vout,
		"size": len(t.hx) / 2, "weight": t.tx.Weight(), "fee": t.outs[len(t.outs)-1].value, "status": statusJSON(t)}
}

func esploraUtxo(t *wTx, i int) js {
	o := t.outs[i]
	m := js{"txid": t.id, "vout": i, "status": statusJSON(t)}
	if o.conf {
		m["valuecommitment"], m["assetcommitment"], m["noncecommitment"] = hex.EncodeToString(o.out.Value), hex.EncodeToString(o.out.Asset), hex.EncodeToString(o.out.Nonce)
	} else {
		m["value"], m["asset"] = o.value, o.asset
	}
	return m
}

func esploraHandler(s *server, rw http.ResponseWriter, r *http.Request) {
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	gen := ""
	if strings.HasPrefix(p[0], "op") {
		gen, p = p[0], p[1:]
	}
	switch {
	case r.Method == "POST" && p[0] == "tx":
		b, _ := ioutil.ReadAll(r.Body)
		s.mu.Lock()
		s.posted = append(s.posted, string(b))
		id := s.reply
		s.mu.Unlock()
		s.send(rw, gen, "broadcast", "", 200, id)
	case len(p) == 3 && p[0] == "blocks":
		s.send(rw, gen, "height", "", 200, fmt.Sprint(s.w.height))
	case len(p) == 3 && p[0] == "address":
		a := s.w.find(p[1])
		if a == nil {
			s.send(rw, gen, p[2], p[1], 400, "Invalid Elements address")
			return
		}
		if p[2] == "utxo" {
			l := []js{}
			ts, idx := s.w.coins(a)
			for i := range ts {
				l = append(l, esploraUtxo(ts[i], idx[i]))
			}
			s.send(rw, gen, "utxo", a.addr, 200, enc(l))
			return
		}
		l := []js{}
		for _, t := range s.w.txsOf(a) {
			l = append(l, esploraTx(t))
		}
		s.send(rw, gen, "txs", a.addr, 200, enc(l))
	case len(p) == 3 && p[0] == "tx":
		t := s.w.byID[p[1]]
		if t == nil {
			s.send(rw, gen, p[2], p[1], 404, "Transaction not found")
			return
		}
		if p[2] == "hex" {
			s.send(rw, gen, "hex", t.id, 200, t.hx)
			return
		}
		s.send(rw, gen, "status", t.id, 200, enc(statusJSON(t)))
	default:
		rw.WriteHeader(404)
		rw.Write([]byte("endpoint does not exist/fee"))
	}
}

// ---- elements ----

func amount(v uint64) json.RawMessage {
	return json.RawMessage(fmt.Sprintf("%d.%08d", v/100000000, v%100000000))
}

func elementsHandler(s *server, rw http.ResponseWriter, r *http.Request) {
	b, _ := ioutil.ReadAll(r.Body)
	var q struct {
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
		Id     int64             `json:"id"`
	}
	json.Unmarshal(b, &q)
	gen, _, _ := r.BasicAuth()
	str := func(i int) string {
		var v string
		if i < len(q.Params) {
			json.Unmarshal(q.Params[i], &v)
		}
		return v
	}
	ok := func(what string, v interface{}) {
		s.send(rw, gen, q.Method, what, 200, enc(js{"result": v, "error": nil, "id": q.Id}))
	}
	fail := func(what string, code int, msg string) {
		s.send(rw, gen, q.Method, what, 500, enc(js{"result": nil, "error": js{"code": code, "message": msg}, "id": q.Id}))
	}
	switch q.Method {
	case "getblockcount":
		ok("", s.w.height)
	case "listlabels":
		s.mu.Lock()
		l := []string{""}
		for k := range s.imports {
			l = append(l, k)
		}
		s.mu.Unlock()
		ok("", l)
	case "importmulti":
		var reqs []struct {
			Script struct{ Address string } `json:"scriptPubKey"`
			Label  string                   `json:"label"`
			Key    string                   `json:"blinding_privkey"`
		}
		json.Unmarshal(q.Params[0], &reqs)
		a := s.w.find(reqs[0].Script.Address)
		if a == nil || reqs[0].Key != hex.EncodeToString(a.key) {
			ok("", []js{{"success": false, "error": js{"code": -5, "message": "wrong key or address"}}})
			return
		}
		s.mu.Lock()
		bad := s.importFails
		if !bad {
			s.imports[reqs[0].Label] = true
		}
		s.mu.Unlock()
		if bad {
			ok(a.addr, []js{{"success": false, "error": js{"code": -4, "message": "wallet is rescanning"}}})
			return
		}
		ok(a.addr, []js{{"success": true}})
	case "listunspent":
		var addrs []string
		json.Unmarshal(q.Params[2], &addrs)
		l := []js{}
		for _, ad := range addrs {
			a := s.w.find(ad)
			s.mu.Lock()
			watched := a != nil && s.imports[hex.EncodeToString(a.script)]
			s.mu.Unlock()
			if !watched {
				continue
			}
			ts, idx := s.w.coins(a)
			for i := range ts {
				t, o := ts[i], ts[i].outs[idx[i]]
				m := js{"txid": t.id, "vout": idx[i], "address": a.plain, "label": hex.EncodeToString(a.script), "scriptPubKey": hex.EncodeToString(o.out.Script),
					"amount": amount(o.value), "asset": o.asset, "confirmations": s.confs(t), "spendable": false, "safe": true,
					"amountblinder": strings.Repeat("0", 64), "assetblinder": strings.Repeat("0", 64)}
				if o.conf {
					m["amountcommitment"], m["assetcommitment"] = hex.EncodeToString(o.out.Value), hex.EncodeToString(o.out.Asset)
					m["amountblinder"], m["assetblinder"] = strings.Repeat("ab", 32), strings.Repeat("cd", 32)
				} else {
					delete(m, "amountblinder")
					delete(m, "assetblinder")
				}
				l = append(l, m)
			}
		}
		ok(strings.Join(addrs, ","), l)
	case "getrawtransaction":
		t := s.w.byID[str(0)]
		if t == nil {
			fail(str(0), -5, "No such mempool or blockchain transaction")
			return
		}
		if len(q.Params) > 1 {
			m := js{"txid": t.id, "hash": t.id, "hex": t.hx, "version": t.tx.Version, "locktime": t.tx.Locktime, "size": len(t.hx) / 2, "vsize": t.tx.VirtualSize(), "weight": t.tx.Weight(), "vin": []js{}, "vout": []js{}}
			if t.confirmed {
				m["confirmations"], m["blockhash"], m["time"], m["blocktime"] = s.confs(t), t.hash, t.time, t.time
			}
			s.sendTx(rw, gen, q.Id, t, m)
			return
		}
		s.send(rw, gen, "getrawtransaction-hex", t.id, 200, enc(js{"result": t.hx, "error": nil, "id": q.Id}))
	case "gettransaction":
		t := s.w.byID[str(0)]
		if t == nil {
			fail(str(0), -5, "Invalid or non-wallet transaction id")
			return
		}
		m := js{"txid": t.id, "confirmations": s.confs(t), "hex": t.hx, "amount": js{"bitcoin": 0.1}}
		if t.confirmed {
			m["blockhash"], m["blocktime"] = t.hash, t.time
		}
		ok(t.id, m)
	case "getblock":
		for _, t := range s.w.txs {
			if t.confirmed && t.hash == str(0) {
				ok(t.hash, js{"hash": t.hash, "height": t.height, "time": t.time, "confirmations": s.confs(t)})
				return
			}
		}
		fail(str(0), -5, "Block not found")
	case "listreceivedbyaddress":
		a := s.w.find(str(3))
		s.mu.Lock()
		watched := a != nil && s.imports[hex.EncodeToString(a.script)]
		s.mu.Unlock()
		if !watched {
			ok(str(3), []js{})
			return
		}
		ids := []string{}
		for _, t := range s.w.txsOf(a) {
			ids = append(ids, t.id)
		}
		ok(a.addr, []js{{"address": a.plain, "txids": ids, "involvesWatchonly": true}})
	case "sendrawtransaction":
		s.mu.Lock()
		s.posted = append(s.posted, str(0))
		id := s.reply
		s.mu.Unlock()
		ok("", id)
	default:
		fail("", -32601, "Method not found")
	}
}

func (s *server) sendTx(rw http.ResponseWriter, gen string, id int64, t *wTx, m js) {
	s.send(rw, gen, "getrawtransaction-verbose", t.id, 200, enc(js{"result": m, "error": nil, "id": id}))
}

func (s *server) confs(t *wTx) int {
	if !t.confirmed {
		return 0
	}
	return s.w.height - t.height + 1
}
