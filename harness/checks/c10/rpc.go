package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	interfaces "github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/emptypb"
	"gopkg.in/macaroon-bakery.v2/bakery"
	macaroon "gopkg.in/macaroon.v2"
)

// what each call requires.
func op(s string) []bakery.Op {
	p := strings.Split(s, ":")
	return []bakery.Op{{Entity: p[0], Action: p[1]}}
}

var required = map[string]string{
	"/Wallet/WalletAddress": "wallet:write", "/Wallet/SendToMany": "wallet:write", "/Wallet/WalletBalance": "wallet:read",
	"/Operator/DepositMarket": "market:write", "/Operator/DepositFeeAccount": "market:write",
	"/Operator/ClaimMarketDeposit": "market:write", "/Operator/ClaimFeeDeposit": "market:write",
	"/Operator/OpenMarket": "market:write", "/Operator/CloseMarket": "market:write", "/Operator/DropMarket": "market:write",
	"/Operator/UpdateMarketPercentageFee": "market:write", "/Operator/UpdateMarketFixedFee": "market:write",
	"/Operator/UpdateMarketStrategy": "market:write", "/Operator/UpdateMarketPrice": "price:write",
	"/Operator/ListMarket": "market:read", "/Operator/ListDepositMarket": "market:read",
	"/Operator/BalanceFeeAccount": "market:read", "/Operator/ReportMarketFee": "market:read",
	"/Operator/WithdrawMarket": "operator:write", "/Operator/ReloadUtxos": "operator:write",
	"/Operator/ListTrades": "operator:read", "/Operator/ListUtxos": "operator:read",
	"/Operator/AddWebhook": "webhook:write", "/Operator/RemoveWebhook": "webhook:write", "/Operator/ListWebhooks": "webhook:read",
}

var open = map[string]bool{
	"/Wallet/GenSeed": true, "/Wallet/InitWallet": true, "/Wallet/UnlockWallet": true, "/Wallet/ChangePassword": true,
	"/Trade/Markets": true, "/Trade/Balances": true, "/Trade/MarketPrice": true, "/Trade/TradePropose": true, "/Trade/TradeComplete": true,
}

var files = map[string]string{
	"admin.macaroon":    "operator:read operator:write market:read market:write price:write webhook:read webhook:write wallet:read wallet:write",
	"readonly.macaroon": "operator:read market:read wallet:read webhook:read",
	"market.macaroon":   "market:read market:write price:write",
	"price.macaroon":    "price:write",
	"wallet.macaroon":   "wallet:read wallet:write",
	"webhook.macaroon":  "webhook:read webhook:write",
}

func opsOf(s string) []bakery.Op {
	var out []bakery.Op
	for _, f := range strings.Fields(s) {
		out = append(out, op(f)...)
	}
	return out
}

type method struct {
	name   string
	stream bool
	trade  bool
}

type node struct {
	d       *sim.Daemon
	svc     interfaces.Service
	op, tr  string // addresses
	opC     *grpc.ClientConn
	trC     *grpc.ClientConn
	refSrv  *grpc.Server
	refC    *grpc.ClientConn
	methods []method
	web     *http.Client
}

type rpc struct {
	r   *sim.Rec
	rng *sim.Rng
	dir string
	n   *node
	ref map[string][2]string // answers of the handlers themselves
}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer l.Close()
	return l.Addr().String()
}

// start runs a daemon process.
func (w *rpc) start() bool {
	domain.MnemonicStoreManager.Unset()
	db := filepath.Join(w.dir, "db")
	os.MkdirAll(db, 0700)
	d, err := sim.NewDaemon(sim.DaemonOpts{Dir: db, KeepPass: true, NoListener: true, PubSub: &sim.RecPubSub{}, FewAddrs: 2})
	if err != nil {
		panic("harness: " + err.Error())
	}
	n := &node{d: d}
	svc, err := grpcinterface.NewService(grpcinterface.ServiceOpts{
		Datadir: w.dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		WalletSvc: d.Wallet, OperatorSvc: d.Operator, TradeSvc: d.Trade,
	})
	if err != nil {
		w.r.Violate("service-start", "the gRPC service does not start: %v", err)
		return false
	}
	n.svc = svc
	n.op, n.tr = freePort(), freePort()
	if err := svc.Start(n.op, n.tr, "", ""); err != nil {
		panic("harness: " + err.Error())
	}
	tlsc := &tls.Config{InsecureSkipVerify: true}
	dial := func(addr string, o grpc.DialOption) *grpc.ClientConn {
		c, err := grpc.Dial(addr, o, grpc.WithBlock(), grpc.WithTimeout(20*time.Second))
		if err != nil {
			panic("harness: dial " + err.Error())
		}
		return c
	}
	n.opC = dial(n.op, grpc.WithTransportCredentials(credentials.NewTLS(tlsc)))
	n.trC = dial(n.tr, grpc.WithInsecure())
	n.web = &http.Client{Transport: &http.Transport{TLSClientConfig: tlsc, ForceAttemptHTTP2: false, TLSNextProto: map[string]func(string, *tls.Conn) http.RoundTripper{}}, Timeout: 30 * time.Second}
	// the handlers alone
	n.refSrv = grpc.NewServer()
	pbtrade.RegisterTradeServer(n.refSrv, grpchandler.NewTraderHandler(d.Trade))
	pboperator.RegisterOperatorServer(n.refSrv, grpchandler.NewOperatorHandler(d.Operator))
	pbwallet.RegisterWalletServer(n.refSrv, grpchandler.NewWalletHandler(d.Wallet))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	go n.refSrv.Serve(l)
	n.refC = dial(l.Addr().String(), grpc.WithInsecure())
	for s, info := range n.refSrv.GetServiceInfo() {
		for _, m := range info.Methods {
			n.methods = append(n.methods, method{"/" + s + "/" + m.Name, m.IsServerStream || m.IsClientStream, strings.HasSuffix(s, "Trade")})
		}
	}
	sort.Slice(n.methods, func(i, j int) bool { return n.methods[i].name < n.methods[j].name })
	w.n = n
	return true
}

func (w *rpc) stop() {
	n := w.n
	for _, c := range []*grpc.ClientConn{n.opC, n.trC, n.refC} {
		c.Close()
	}
	n.refSrv.Stop()
	// a connection that never spoke holds a graceful stop up
	n.web.CloseIdleConnections()
	if ok, _ := sim.Within(10*time.Second, func() { n.svc.Stop() }); !ok {
		w.r.Count("slow stops", 1)
	}
	n.d.Close()
	w.n = nil
}

func invoke(c *grpc.ClientConn, m method, macs ...string) (string, string) {
	ctx, cancel := context.WithTimeout(bg, 60*time.Second)
	defer cancel()
	for _, h := range macs {
		ctx = metadata.AppendToOutgoingContext(ctx, "macaroon", h)
	}
	var err error
	if !m.stream {
		err = c.Invoke(ctx, m.name, &emptypb.Empty{}, &emptypb.Empty{})
	} else {
		var s grpc.ClientStream
		s, err = c.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, m.name)
		if err == nil {
			s.SendMsg(&emptypb.Empty{})
			s.CloseSend()
			for err == nil {
				err = s.RecvMsg(&emptypb.Empty{})
			}
			if err.Error() == "EOF" {
				err = nil
			}
		}
	}
	st, _ := status.FromError(err)
	return st.Code().String(), st.Message()
}

var (
	webStatus  = regexp.MustCompile("(?i)grpc-status: *([0-9]+)")
	webMessage = regexp.MustCompile("(?i)grpc-message: *([^\r\n]*)")
)

// web calls over grpc-web; answers are code and message.
func (w *rpc) webCall(m method, macs ...string) (string, string) {
	url := "https://" + w.n.op + m.name
	if m.trade {
		url = "http://" + w.n.tr + m.name
	}
	req, _ := http.NewRequest("POST", url, bytes.NewReader([]byte{0, 0, 0, 0, 0}))
	req.Header.Set("content-type", "application/grpc-web+proto")
	req.Header.Set("x-grpc-web", "1")
	for _, h := range macs {
		req.Header.Add("macaroon", h)
	}
	resp, err := w.n.web.Do(req)
	if err != nil {
		return "transport", err.Error()
	}
	defer resp.Body.Close()
	b, _ := ioutil.ReadAll(resp.Body)
	code, msg := resp.Header.Get("grpc-status"), resp.Header.Get("grpc-message")
	if code == "" {
		if m := webStatus.FindSubmatch(b); m != nil {
			code = string(m[1])
		}
		if m := webMessage.FindSubmatch(b); m != nil {
			msg = strings.TrimSpace(string(m[1]))
		}
	}
	return "web " + code, msg
}

// refs asks the handlers themselves.
func (w *rpc) refs() {
	for i := 0; i < 2; i++ { // some calls alter what others answer
		for _, m := range w.n.methods {
			invoke(w.n.refC, m)
		}
	}
	w.ref = map[string][2]string{}
	for _, m := range w.n.methods {
		c, s := invoke(w.n.refC, m)
		w.ref[m.name] = [2]string{c, s}
		if c == "Unimplemented" {
			w.r.Violate("unimplemented", "%s is registered but not implemented", m.name)
		}
	}
}

// reached tells whether the answer is the handler's.
func (w *rpc) reached(m method, code, msg string) bool {
	ref := w.ref[m.name]
	if strings.HasPrefix(code, "web ") {
		if code == "web 0" {
			return true
		}
		return ref[0] != "OK" && strings.TrimSpace(msg) == strings.TrimSpace(ref[1])
	}
	if code == "OK" {
		return true
	}
	return ref[0] != "OK" && code == ref[0] && msg == ref[1]
}

func (w *rpc) conn(m method) *grpc.ClientConn {
	if m.trade {
		return w.n.trC
	}
	return w.n.opC
}

// check calls a method with the given headers.
func (w *rpc) check(m method, want bool, what string, web bool, macs ...string) {
	var code, msg string
	if web {
		code, msg = w.webCall(m, macs...)
	} else {
		code, msg = invoke(w.conn(m), m, macs...)
	}
	if code == "transport" || code == "DeadlineExceeded" || code == "Unavailable" {
		w.r.Violate("rpc-no-answer", "%s with %s: %s %s", m.name, what, code, msg)
		return
	}
	got := w.reached(m, code, msg)
	if !got && want { // the answer of the handler may have changed since
		c, s := invoke(w.n.refC, m)
		got = c != "OK" && strings.TrimSpace(msg) == strings.TrimSpace(s) && (web || code == c)
	}
	w.r.Eval(fmt.Sprintf("rpc %s %s %v %v", m.name, what, want, web))
	if got {
		w.r.Count("calls reached", 1)
	} else {
		w.r.Count("calls denied", 1)
	}
	if got == want {
		return
	}
	if got {
		w.r.Violate("rpc-reached "+m.name, "%s was served with %s (web %v): %s %q", m.name, what, web, code, msg)
	} else {
		w.r.Violate("rpc-denied "+m.name, "%s was not served with %s (web %v): %s %q, the handler answers %v", m.name, what, web, code, msg, w.ref[m.name])
	}
}

func (w *rpc) need(m method) []bakery.Op {
	s, ok := required[m.name]
	if !ok {
		return nil
	}
	return op(s)
}

func may(m method, t *token, live bool) bool {
	if open[m.name] {
		return true
	}
	if t == nil || !live || !t.holds {
		return false
	}
	s, ok := required[m.name]
	if !ok { // a call the monitor does not know: the administrator may
		return t.kind == "admin.macaroon"
	}
	return subset(op(s), t.ops) || subset([]bakery.Op{{Entity: macaroons.PermissionEntityCustomURI, Action: m.name}}, t.ops)
}

func hx(m *macaroon.Macaroon) string { return hex.EncodeToString(bin(m)) }

// sweep crosses all methods with the tokens and with no or broken credentials.
func (w *rpc) sweep(label string, tokens []*token, live func(*token) bool) {
	for _, m := range w.n.methods {
		for _, web := range []bool{false, true} {
			w.check(m, open[m.name], label+" no macaroon", web)
		}
		w.check(m, open[m.name], label+" empty", false, "")
		w.check(m, open[m.name], label+" junk", false, "00ff")
		for _, t := range tokens {
			if open[m.name] && t.kind != "price.macaroon" {
				continue
			}
			w.check(m, may(m, t, live(t)), label+" "+t.kind, false, hx(t.m))
		}
	}
}

func (w *rpc) readFiles() []*token {
	var out []*token
	names := []string{}
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		p := filepath.Join(w.dir, "macaroons", f)
		var m *macaroon.Macaroon
		ok := sim.WaitFor(20*time.Second, func() bool {
			b, err := ioutil.ReadFile(p)
			if err != nil {
				return false
			}
			var valid bool
			m, valid = parse(b)
			return valid
		})
		if !ok {
			w.r.Violate("macaroon-file", "%s is not written after the wallet is initialised", f)
			continue
		}
		out = append(out, &token{m: m, key: "0", ops: opsOf(files[f]), holds: true, kind: f})
	}
	return out
}

// ready waits until the macaroon is accepted.
func (w *rpc) ready(t *token, what string) bool {
	m := method{name: "/Operator/ListWebhooks"}
	ok := sim.WaitFor(20*time.Second, func() bool {
		c, s := invoke(w.n.opC, m, hx(t.m))
		return w.reached(m, c, s)
	})
	if !ok {
		w.r.Violate("never-accepted", "the admin macaroon is not accepted %s", what)
	}
	return ok
}

func (w *rpc) unlock(pass string) error {
	ctx, cancel := context.WithTimeout(bg, 60*time.Second)
	defer cancel()
	_, err := pbwallet.NewWalletClient(w.n.opC).UnlockWallet(ctx, &pbwallet.UnlockWalletRequest{WalletPassword: []byte(pass)})
	return err
}

// fuzz crosses random methods with narrowed, tampered and foreign macaroons, concurrently.
func (w *rpc) fuzz(label string, tokens []*token, live func(*token) bool, foreign []*token, n int) {
	var wg sync.WaitGroup
	all := []*macaroon.Macaroon{}
	for _, t := range tokens {
		all = append(all, t.m)
	}
	for g := 0; g < 6; g++ {
		r := w.rng.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !w.r.Violated(); i++ {
				m := w.n.methods[r.Intn(len(w.n.methods))]
				if open[m.name] && r.Intn(4) > 0 {
					continue
				}
				t := tokens[r.Intn(len(tokens))]
				if r.Intn(3) == 0 { // the powerful one
					for _, a := range tokens {
						if a.kind == "admin.macaroon" {
							t = a
						}
					}
				}
				web := r.Intn(4) == 0
				switch r.Intn(6) {
				case 0, 1: // narrowed, maybe repeatedly
					c := *t
					k := 1 + r.Intn(3)
					for j := 0; j < k; j++ {
						nm, holds, kind := narrow(r, c.m)
						c.m, c.holds, c.kind = nm, c.holds && holds, c.kind+"+"+kind
					}
					want := may(m, &c, live(t))
					if required[m.name] == "" && !open[m.name] {
						want = c.holds && live(t) && strings.HasPrefix(c.kind, "admin")
					}
					w.check(m, want, label+" "+c.kind, web, hx(c.m))
				case 2, 3:
					c := t.m
					if r.Bool() {
						c, _, _ = narrow(r, c)
					}
					others := append(append([]*macaroon.Macaroon{}, all...), t.m)
					b, kind := tamper(r, c, others)
					if b == nil || (kind == "caveat stripped" && same(t.m, mustParse(b))) {
						continue
					}
					w.check(m, open[m.name], label+" "+t.kind+" "+kind, web, hex.EncodeToString(b))
				case 4:
					if len(foreign) == 0 {
						continue
					}
					f := foreign[r.Intn(len(foreign))]
					w.check(m, open[m.name], label+" foreign "+f.kind, web, hx(f.m))
				default:
					w.check(m, may(m, t, live(t)), label+" "+t.kind, web, hx(t.m))
				}
			}
		}()
	}
	wg.Wait()
}

func mustParse(b []byte) *macaroon.Macaroon {
	m, ok := parse(b)
	if !ok {
		return &macaroon.Macaroon{}
	}
	return m
}

// bake mints macaroons on the store of a stopped daemon.
func (w *rpc) bake(dir, pass string, f func(*macaroons.Service)) bool {
	svc, err := macaroons.NewService(dir, "tdexd", "macaroons.db", false, macaroons.IPLockChecker)
	if err != nil {
		w.r.Violate("store-open", "the macaroon store of a stopped daemon: %v", err)
		return false
	}
	defer svc.Close()
	b := []byte(pass)
	if err := svc.CreateUnlock(&b); err != nil {
		w.r.Violate("store-password", "the macaroon store does not open with the wallet's passphrase: %v", err)
		return false
	}
	f(svc)
	return true
}

func (w *rpc) minted(svc *macaroons.Service, kind string, n int) []*token {
	var out []*token
	for i := 0; i < n; i++ {
		key := []string{"0", "7", "side"}[w.rng.Intn(3)]
		ops := randOps(w.rng, 3)
		if w.rng.Intn(3) == 0 {
			ms := w.n0()
			ops = append(ops, bakery.Op{Entity: macaroons.PermissionEntityCustomURI, Action: ms[w.rng.Intn(len(ms))]})
		}
		m, err := svc.NewMacaroon(bg, []byte(key), ops...)
		if err != nil {
			w.r.Violate("bake", "minting: %v", err)
			continue
		}
		out = append(out, &token{m: m.M(), key: key, ops: ops, holds: true, kind: kind + " " + key})
	}
	return out
}

func (w *rpc) n0() []string {
	var out []string
	for m := range required {
		out = append(out, m)
	}
	sort.Strings(out)
	return out
}

func rpcWorld(rec *sim.Rec, rng *sim.Rng) {
	w := &rpc{r: rec, rng: rng, dir: filepath.Join(rec.Dir, "rpc")}
	os.MkdirAll(w.dir, 0700)
	always := func(*token) bool { return true }
	never := func(*token) bool { return false }

	// somebody else's daemon
	var foreign []*token
	fdir := filepath.Join(rec.Dir, "foreign")
	w.bake(fdir, sim.Pass, func(svc *macaroons.Service) {
		for f, o := range files {
			m, err := svc.NewMacaroon(bg, []byte("0"), opsOf(o)...)
			if err == nil {
				foreign = append(foreign, &token{m: m.M(), ops: opsOf(o), holds: true, kind: f})
			}
		}
	})
	sort.Slice(foreign, func(i, j int) bool { return foreign[i].kind < foreign[j].kind })

	// before the wallet exists
	if !w.start() {
		return
	}
	w.refs()
	w.sweep("uninitialised", foreign, never)
	ctx, cancel := context.WithTimeout(bg, 120*time.Second)
	defer cancel()
	stream, err := pbwallet.NewWalletClient(w.n.opC).InitWallet(ctx, &pbwallet.InitWalletRequest{WalletPassword: []byte(sim.Pass), SeedMnemonic: sim.Words})
	for err == nil {
		_, err = stream.Recv()
	}
	if err.Error() != "EOF" {
		rec.Violate("init", "initialising the wallet: %v", err)
		return
	}
	tokens := w.readFiles()
	if rec.Violated() {
		return
	}
	admin := tokens[0]
	w.refs()
	if !w.ready(admin, "after the wallet was initialised") {
		return
	}
	w.sweep("initialised", append(tokens, foreign...), func(t *token) bool { return contains(tokens, t) })
	if err := w.unlock(sim.Pass); err != nil {
		rec.Violate("unlock", "%v", err)
		return
	}
	w.refs()
	count := func() int {
		n := 0
		for a := 0; a < 3; a++ {
			i, err := w.n.d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(bg, a)
			if err == nil {
				n += len(i)
			}
		}
		return n
	}
	before := count()
	for _, m := range w.n.methods { // denied calls have no effect
		if open[m.name] {
			continue
		}
		w.check(m, false, "no macaroon", false)
		w.check(m, false, "foreign", false, hx(foreign[0].m))
		for _, t := range tokens {
			if !may(m, t, true) {
				w.check(m, false, t.kind, false, hx(t.m))
			}
		}
	}
	if after := count(); after != before {
		rec.Violate("denied-effect", "refused calls derived %d addresses", after-before)
	}
	w.sweep("unlocked", append(tokens, foreign...), func(t *token) bool { return contains(tokens, t) })
	w.fuzz("unlocked", tokens, always, foreign, rec.N(250, 2500))
	// no request is let in by two macaroons neither of which suffices
	for _, m := range w.n.methods {
		if !open[m.name] {
			w.check(m, false, "two foreign", false, hx(foreign[0].m), hx(foreign[1].m))
		}
	}
	// operator calls on the public port need a macaroon too
	w.publicPort(foreign[0], admin)
	w.stop()

	// mint more, then restart and change the password before unlocking
	db := filepath.Join(w.dir, "db")
	w.bake(db, sim.Pass, func(svc *macaroons.Service) { tokens = append(tokens, w.minted(svc, "baked", 14)...) })
	if rec.Violated() || !w.start() {
		return
	}
	w.refs()
	w.sweep("locked", tokens[:6], never)
	pass2 := "Another-passphrase-2"
	cctx, ccancel := context.WithTimeout(bg, 60*time.Second)
	defer ccancel()
	if _, err := pbwallet.NewWalletClient(w.n.opC).ChangePassword(cctx, &pbwallet.ChangePasswordRequest{CurrentPassword: []byte(sim.Pass), NewPassword: []byte(pass2)}); err != nil {
		rec.Violate("change", "changing the passphrase: %v", err)
		return
	}
	if err := w.unlock(pass2); err != nil {
		rec.Violate("unlock", "after the change: %v", err)
		return
	}
	w.refs()
	if !w.ready(admin, "after the passphrase was changed and the wallet unlocked") {
		return
	}
	rec.Count("password changes", 1)
	w.sweep("re-keyed", tokens, always)
	w.fuzz("re-keyed", tokens, always, foreign, rec.N(250, 2500))
	w.stop()

	// replace the root keys
	w.bake(db, pass2, func(svc *macaroons.Service) {
		if err := svc.GenerateNewRootKey(); err != nil {
			rec.Violate("rekey", "%v", err)
		}
		if _, err := svc.DeleteMacaroonID(bg, []byte("7")); err != nil {
			rec.Violate("rekey", "%v", err)
		}
		rec.Count("root keys replaced", 1)
	})
	old := tokens
	var fresh []*token
	w.bake(db, pass2, func(svc *macaroons.Service) {
		m, err := svc.NewMacaroon(bg, []byte("0"), opsOf(files["admin.macaroon"])...)
		if err == nil {
			fresh = append(fresh, &token{m: m.M(), key: "0", ops: opsOf(files["admin.macaroon"]), holds: true, kind: "admin.macaroon"})
		}
		fresh = append(fresh, w.minted(svc, "new", 6)...)
	})
	if rec.Violated() || len(fresh) == 0 || !w.start() {
		return
	}
	if err := w.unlock(pass2); err != nil {
		rec.Violate("unlock", "%v", err)
		return
	}
	w.refs()
	if !w.ready(fresh[0], "after a restart") {
		return
	}
	live := func(t *token) bool { return contains(fresh, t) || t.key == "side" }
	w.sweep("replaced", append(append([]*token{}, old...), fresh...), live)
	w.fuzz("replaced", append(append([]*token{}, old...), fresh...), live, foreign, rec.N(60, 600))
	w.stop()
	rec.Count("daemon restarts", 3)
}

// failClosed starts a daemon whose macaroon store cannot be opened: it does not
// start, or serves nobody.
func failClosed(rec *sim.Rec) {
	w := &rpc{r: rec, rng: rec.Rng("fc"), dir: filepath.Join(rec.Dir, "closed")}
	os.MkdirAll(filepath.Join(w.dir, "db", "macaroons.db", "x"), 0700)
	d, err := sim.NewDaemon(sim.DaemonOpts{KeepPass: true, NoListener: true, PubSub: &sim.RecPubSub{}})
	if err != nil {
		panic("harness: " + err.Error())
	}
	svc, err := grpcinterface.NewService(grpcinterface.ServiceOpts{
		Datadir: w.dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		WalletSvc: d.Wallet, OperatorSvc: d.Operator, TradeSvc: d.Trade,
	})
	rec.Eval("store cannot be opened")
	if err != nil {
		return
	}
	addr := freePort()
	if err := svc.Start(addr, freePort(), "", ""); err != nil {
		return
	}
	c, err := grpc.Dial(addr, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})), grpc.WithBlock(), grpc.WithTimeout(10*time.Second))
	if err != nil {
		return
	}
	defer c.Close()
	if code, msg := invoke(c, method{name: "/Operator/ListWebhooks"}); !strings.Contains(msg, "macaroon") {
		rec.Violate("fails-open", "with a macaroon store that cannot be opened the daemon serves ListWebhooks without a macaroon: %s %q", code, msg)
	}
}

func contains(l []*token, t *token) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// publicPort tries operator calls on the trade interface.
func (w *rpc) publicPort(bad, admin *token) {
	for _, m := range w.n.methods {
		if m.trade || open[m.name] {
			continue
		}
		for _, h := range []string{"", hx(bad.m)} {
			code, msg := invoke(w.n.trC, m, h)
			if w.reached(m, code, msg) {
				w.r.Violate("public-port "+m.name, "%s is served on the trade interface without permission: %s %q", m.name, code, msg)
			}
			w.r.Count("operator calls on the public port", 1)
			w.r.Eval("public " + m.name)
		}
	}
}
