// Monitor of C09: the seed opens only with the current passphrase.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcd/chaincfg"
	"github.com/btcsuite/btcutil/hdkeychain"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-bip39"
)

var bg = context.Background()

// ---- sealing -------------------------------------------------------------

func passphrase(r *sim.Rng) string {
	switch r.Intn(7) {
	case 0:
		return string([]byte{byte(1 + r.Intn(255))})
	case 1:
		return "pässwörd ✓ " + r.Str(3)
	case 2:
		return r.Str(64 + r.Intn(80))
	case 3:
		b := r.Bytes(8 + r.Intn(30))
		b[len(b)-1] |= 1
		return string(b)
	default:
		return "passphrase-" + r.Str(8)
	}
}

func plaintext(r *sim.Rng) string {
	switch r.Intn(5) {
	case 0:
		return string(r.Bytes(1 + r.Intn(4)))
	case 1:
		return string(r.Bytes(1 + r.Intn(5000)))
	case 2:
		return string(make([]byte, 1+r.Intn(40)))
	default:
		return strings.Join(sim.Words, " ")
	}
}

func otherPass(r *sim.Rng, p string) string {
	b := []byte(p)
	switch r.Intn(8) {
	case 5: // the end of it
		b[len(b)-1] ^= 1
	case 6:
		b = append(b, ' ')
	case 7:
		b = []byte(strings.ToLower(p))
		if string(b) == p {
			b = []byte(strings.ToUpper(p))
		}
		if string(b) == p {
			b = append(b, 'z')
		}
	case 0:
		b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
	case 1:
		b = append(b, 'x')
	case 2:
		b = append([]byte{' '}, b...)
	case 3:
		if len(b) > 1 {
			b = b[:len(b)-1]
		} else {
			b = append(b, b...)
		}
	default:
		b = []byte(strings.ToUpper(p) + "X")
	}
	if strings.TrimRight(string(b), "\x00") == strings.TrimRight(p, "\x00") || len(b) == 0 {
		b = append(b, 'z')
	}
	return string(b)
}

// free returns the gigabyte an opening took.
func free() { debug.FreeOSMemory() }

// tidy is the real sealing, giving its memory back.
type tidy struct{ e domain.Encrypter }

func (t tidy) Encrypt(m, p string) (string, error) { defer free(); return t.e.Encrypt(m, p) }
func (t tidy) Decrypt(c, p string) (string, error) { defer free(); return t.e.Decrypt(c, p) }

func sealing(rec *sim.Rec, r *sim.Rng, slow int) {
	p, pt := passphrase(r), plaintext(r)
	long := sim.Shard()%2 == 1 || r.Intn(8) < 3
	if long {
		p = r.Str(100 + r.Intn(200))
	}
	ct, err := wallet.Encrypt(wallet.EncryptOpts{PlainText: pt, Passphrase: p})
	if err != nil {
		rec.Violate("seal-fails", "sealing %d bytes: %v", len(pt), err)
		return
	}
	raw, err := base64.StdEncoding.DecodeString(ct)
	if err != nil {
		rec.Violate("seal-format", "the sealed data is not base64: %v", err)
		return
	}
	if len(pt) >= 8 && strings.Trim(pt, "\x00") != "" && (bytes.Contains(raw, []byte(pt)) || strings.Contains(ct, pt)) {
		rec.Violate("plaintext-in-sealed", "the sealed data contains the plaintext")
	}
	if len(p) >= 8 && bytes.Contains(raw, []byte(p)) {
		rec.Violate("passphrase-in-sealed", "the sealed data contains the passphrase")
	}
	debug.FreeOSMemory()
	open := func(c, p, what string, right bool) {
		defer free()
		var got string
		var err error
		if !rec.GuardV("opening-panics", fmt.Sprintf("opening sealed data %s", what), func() {
			got, err = wallet.Decrypt(wallet.DecryptOpts{CypherText: c, Passphrase: p})
		}) {
			return
		}
		rec.Eval(what)
		if right {
			rec.Count("sealed_opened", 1)
			if err != nil || got != pt {
				rec.Violate("does-not-open", "sealed data of %d bytes does not open with its passphrase: %v", len(pt), err)
			}
			return
		}
		rec.Count("corrupted_or_wrong_refused", 1)
		if err == nil {
			rec.Violate("opens-"+strings.Fields(what)[0], "sealed data opens %s", what)
		}
	}
	open(ct, p, "untouched", true)
	// every truncation that is too short is cheap
	enc := base64.StdEncoding.EncodeToString
	for n := 0; n < 60 && n < len(raw); n++ {
		open(enc(raw[:n]), p, "truncated to few bytes", false)
	}
	open("", p, "emptied", false)
	open(ct, "", "with an empty passphrase", false)
	open(ct+"!", p, "not base64", false)
	kinds := r.Perm(8)
	if long {
		b := []byte(p)
		b[len(b)-1] ^= 1
		open(ct, string(b), "wrong end of a long passphrase", false)
	} else {
		open(ct, otherPass(r, p), "wrong passphrase", false)
	}
	for i := 0; i < slow; i++ {
		b := append([]byte{}, raw...)
		switch kinds[i%8] {
		case 0:
			open(ct, otherPass(r, p), "wrong passphrase", false)
		case 1:
			b[r.Intn(12)] ^= byte(1 << uint(r.Intn(8)))
			open(enc(b), p, "nonce modified", false)
		case 2:
			b[12+r.Intn(len(b)-12-32)] ^= byte(1 << uint(r.Intn(8)))
			open(enc(b), p, "text modified", false)
		case 3:
			b[len(b)-1-r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
			open(enc(b), p, "salt modified", false)
		case 4:
			open(enc(b[:60+r.Intn(len(b)-60)]), p, "truncated at the end", false)
		case 5:
			open(enc(b[1+r.Intn(len(b)-60):]), p, "truncated at the start", false)
		case 6:
			open(enc(append(b, byte(r.Intn(256)))), p, "extended", false)
		default:
			b[len(b)-33-r.Intn(16)] ^= 0x80
			open(enc(b), p, "tag modified", false)
		}
	}
	rec.Count("seals", 1)
}

// ---- histories -----------------------------------------------------------

type hist struct {
	rec   *sim.Rec
	r     *sim.Rng
	d     *sim.Daemon
	dir   string
	pub   func() (*pubStore, error)
	ps    *pubStore
	chain *sim.Chain
	words []string
	pass  string // "" before the wallet is initialised
	open  bool
	past  []string
	log   []string
	real  bool
	dead  bool
}

func (h *hist) note(f string, a ...interface{}) {
	h.log = append(h.log, fmt.Sprintf(f, a...))
	if len(h.log) > 14 {
		h.log = h.log[1:]
	}
}

func (h *hist) bad(sig, f string, a ...interface{}) {
	h.rec.Violate(sig, "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(h.log, "; "))
	h.dead = true
}

func (h *hist) start() bool {
	o := sim.DaemonOpts{Dir: h.dir, NoListener: true, Chain: h.chain}
	if h.pub != nil {
		ps, err := h.pub()
		if err != nil {
			h.rec.Inconclusive("pubsub store: %v", err)
			h.dead = true
			return false
		}
		h.ps = ps
		o.PubSub = ps.svc
	}
	d, err := sim.NewDaemon(o)
	if err != nil {
		h.bad("restart-fails", "the daemon does not start: %v", err)
		return false
	}
	h.d = d
	return true
}

func (h *hist) stop() {
	h.d.Close()
	if h.ps != nil {
		h.ps.close()
	}
}

// check compares every way of reaching the mnemonic with the model.
func (h *hist) check(after string) {
	if h.dead {
		return
	}
	words := strings.Join(h.words, " ")
	avail := strings.Join(domain.MnemonicStoreManager.Get(), " ")
	v, err := h.d.Repo.VaultRepository().GetOrCreateVault(bg, nil, "", nil)
	if h.pass == "" {
		if err == nil && v != nil && v.IsInitialized() {
			h.bad("vault-before-init", "after %s there is an initialised vault", after)
		}
		return
	}
	if err != nil || v == nil {
		h.bad("vault-lost", "after %s the vault cannot be read: %v", after, err)
		return
	}
	safe, serr := v.GetMnemonicSafe()
	h.rec.Count("states_checked", 1)
	if h.open {
		if serr != nil || strings.Join(safe, " ") != words || avail != words {
			h.bad("seed-not-available", "after %s the wallet is unlocked but its seed reads %d words (%v)", after, len(safe), serr)
			return
		}
	} else {
		if serr == nil || len(safe) > 0 || len(domain.MnemonicStoreManager.Get()) > 0 || domain.MnemonicStoreManager.IsSet() {
			h.bad("seed-available-while-locked", "after %s the wallet is locked but its seed is available", after)
			return
		}
		if v.IsLocked() == false {
			h.bad("not-locked", "after %s the vault is not locked", after)
			return
		}
	}
	_, _, aerr := h.d.Wallet.GenerateAddressAndBlindingKey(bg)
	if h.open != (aerr == nil) {
		h.bad("addresses-vs-lock", "after %s (unlocked: %v) deriving an address gives %v", after, h.open, aerr)
	}
	h.rec.Eval(fmt.Sprintf("%v:%s:%d", h.open, strings.Fields(after)[0], len(h.past)))
}

func (h *hist) wrongPass() string {
	if len(h.past) > 0 && h.r.Bool() {
		if p := h.past[h.r.Intn(len(h.past))]; p != h.pass {
			return p
		}
	}
	return otherPass(h.r, h.pass)
}

func (h *hist) newPass() string {
	for {
		p := "Passphrase " + h.r.Str(12)
		if !h.real {
			p = passphrase(h.r)
		}
		if p != h.pass {
			return p
		}
	}
}

func (h *hist) unlock(p string) {
	right := p == h.pass
	h.note("unlock(right: %v)", right)
	err := h.d.Wallet.UnlockWallet(bg, p)
	switch {
	case h.pass == "":
		if err == nil {
			h.bad("unlock-before-init", "unlocking an uninitialised wallet succeeds")
		}
	case h.open:
		// already unlocked: any answer, nothing may change
	case right:
		if err != nil {
			h.bad("current-passphrase-refused", "the current passphrase is refused: %v", err)
		}
		h.open = true
		h.rec.Count("unlocks", 1)
	default:
		if err == nil {
			h.bad("wrong-passphrase-unlocks", "a passphrase that is not the current one unlocks the wallet")
		}
		h.rec.Count("wrong_unlocks_refused", 1)
	}
	h.check("unlock")
}

func (h *hist) change(cur, next string) {
	right := cur == h.pass && next != "" && h.pass != ""
	h.note("change(right: %v, locked: %v)", right, !h.open)
	err := h.d.Wallet.ChangePassword(bg, cur, next)
	if right && !h.open {
		if err != nil {
			h.bad("change-refused", "changing the passphrase: %v", err)
			return
		}
		h.past = append(h.past, h.pass)
		h.pass = next
		h.rec.Count("changes", 1)
		if h.ps != nil {
			h.ps.settle()
		}
	} else {
		if err == nil && !h.open {
			h.bad("wrong-change-accepted", "a passphrase change with a wrong passphrase or an empty new one succeeds")
		} else if err == nil {
			h.bad("change-while-unlocked", "the passphrase is changed while the wallet is unlocked")
		}
		h.rec.Count("wrong_changes_refused", 1)
	}
	h.check("change")
}

func (h *hist) init() {
	if h.pass == "" && h.r.Chance(2) {
		h.note("bad init")
		w, p := h.words, "x"
		switch h.r.Intn(4) {
		case 0:
			w = h.words[:11]
		case 1:
			w = nil
		case 2:
			p = ""
		default:
			w = append([]string{"zzzz"}, h.words[1:]...)
		}
		h.d.Init(w, p, false)
		h.check("failed init")
		if h.dead {
			return
		}
	}
	p := h.newPass()
	words := h.words
	if h.pass != "" { // again: nothing may change
		words, _ = wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: 256})
	}
	h.note("init(again: %v)", h.pass != "")
	rep := h.d.Init(words, p, false)
	if h.pass == "" {
		if len(rep.Errs) > 0 {
			h.bad("init-fails", "initialising: %v", rep.Errs)
			return
		}
		h.pass = p
		h.rec.Count("inits", 1)
		if h.ps != nil {
			h.ps.settle()
		}
	}
	h.check("init")
}

func (h *hist) restart() {
	h.note("restart")
	h.stop()
	domain.MnemonicStoreManager.Unset() // what the death of the process does
	h.open = false
	if h.start() {
		h.rec.Count("restarts", 1)
		h.check("restart")
	}
}

// races: several requests at once; afterwards exactly one passphrase opens.
func (h *hist) race() {
	if h.open || h.pass == "" {
		return
	}
	a, b := h.newPass(), h.newPass()
	for b == a {
		b = h.newPass()
	}
	h.note("two changes at once with wrong unlocks")
	w := h.wrongPass()
	for w == a || w == b {
		w = otherPass(h.r, w)
	}
	var wg sync.WaitGroup
	errs := make([]error, 4)
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch i {
			case 0:
				errs[0] = h.d.Wallet.ChangePassword(bg, h.pass, a)
			case 1:
				errs[1] = h.d.Wallet.ChangePassword(bg, h.pass, b)
			default:
				errs[i] = h.d.Wallet.UnlockWallet(bg, w)
			}
		}()
	}
	wg.Wait()
	old := h.pass
	switch {
	case errs[2] == nil || errs[3] == nil:
		h.bad("wrong-passphrase-unlocks", "a wrong passphrase unlocks the wallet during passphrase changes")
		return
	case errs[0] == nil && errs[1] == nil:
		h.bad("both-changes-succeed", "two changes from the same passphrase both succeed")
		return
	case errs[0] == nil:
		h.pass = a
		h.past = append(h.past, old, b)
	case errs[1] == nil:
		h.pass = b
		h.past = append(h.past, old, a)
	default:
		h.past = append(h.past, a, b)
	}
	h.rec.Count("races", 1)
	h.check("race")
	if !h.dead {
		h.unlock(h.past[len(h.past)-1])
	}
	if !h.dead && h.r.Bool() {
		h.unlock(h.past[len(h.past)-2])
	}
}

func (h *hist) step() {
	switch h.r.Intn(10) {
	case 0, 1:
		h.unlock(h.pass)
	case 2:
		if h.pass != "" {
			h.unlock(h.wrongPass())
		}
	case 3:
		if h.pass != "" {
			h.change(h.wrongPass(), h.newPass())
		}
	case 4:
		if h.pass != "" {
			h.change(h.pass, h.newPass())
		}
	case 5:
		if h.pass != "" {
			h.change(h.pass, "")
		}
	case 6:
		h.init()
	case 7, 8:
		h.restart()
	default:
		h.race()
	}
}

func history(rec *sim.Rec, r *sim.Rng, id, steps int) {
	dir := filepath.Join(rec.Dir, fmt.Sprintf("h%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	domain.MnemonicStoreManager.Unset()
	words, _ := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: 256})
	h := &hist{rec: rec, r: r, dir: dir, chain: sim.NewChain(), words: words}
	if !h.start() {
		return
	}
	defer h.stop()
	h.unlock("anything")
	h.init()
	for i := 0; i < steps && !h.dead; i++ {
		h.step()
	}
	if !h.dead {
		rec.Count("histories", 1)
		if id < 2 {
			rec.Sample(h.log)
		}
	}
}

// ---- one session with the real sealing, and what it leaves on disk --------

type pubStore struct {
	svc   ports.SecurePubSub
	close func()
	lock  func() bool
}

// settle waits for the store's own re-keying, which runs on its own.
func (p *pubStore) settle() { time.Sleep(1500 * time.Millisecond) }

func secrets(words []string, passes []string) map[string][]byte {
	s := map[string][]byte{}
	s["mnemonic"] = []byte(strings.Join(words, " "))
	s["mnemonic words"] = []byte(strings.Join(words[:5], " "))
	s["mnemonic json"] = []byte(strings.Join(words[:5], `","`))
	if e, err := bip39.EntropyFromMnemonic(strings.Join(words, " ")); err == nil {
		s["entropy"] = e
		s["entropy hex"] = []byte(hex.EncodeToString(e))
	}
	seed := bip39.NewSeed(strings.Join(words, " "), "")
	s["seed"], s["seed hex"] = seed, []byte(hex.EncodeToString(seed))
	if k, err := hdkeychain.NewMaster(seed, &chaincfg.MainNetParams); err == nil {
		s["master key"] = []byte(k.String())
	}
	s["mnemonic base64"] = []byte(base64.StdEncoding.EncodeToString([]byte(strings.Join(words, " "))))[:40]
	for i, p := range passes {
		s[fmt.Sprintf("passphrase %d", i)] = []byte(p)
		s[fmt.Sprintf("passphrase %d base64", i)] = []byte(base64.StdEncoding.EncodeToString([]byte(p)))[:len(p)]
		s[fmt.Sprintf("passphrase %d hex", i)] = []byte(hex.EncodeToString([]byte(p)))
	}
	return s
}

func (h *hist) scan(roots ...string) {
	sec := secrets(h.words, append(append([]string{}, h.past...), h.pass))
	for _, root := range roots {
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || fi.Size() > 1<<30 {
				return nil
			}
			f, err := os.Open(p)
			if err != nil {
				return nil
			}
			defer f.Close()
			// value logs are preallocated: look at what is in use
			buf := make([]byte, 1<<20)
			var tail []byte
			for {
				n, err := f.Read(buf)
				if n > 0 {
					b := append(append([]byte{}, tail...), buf[:n]...)
					for name, s := range sec {
						if bytes.Contains(b, s) {
							h.bad("on-disk:"+strings.Fields(name)[0], "the %s is in clear in %s", name, filepath.Base(p))
						}
					}
					if len(b) > 512 {
						tail = append([]byte{}, b[len(b)-512:]...)
					}
					h.rec.Count("bytes_scanned", int64(n))
				}
				if err != nil {
					break
				}
			}
			h.rec.Count("files_scanned", 1)
			return nil
		})
	}
}

func realSession(rec *sim.Rec, r *sim.Rng) {
	dir := filepath.Join(rec.Dir, "real")
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	domain.MnemonicStoreManager.Unset()
	words, _ := wallet.NewMnemonic(wallet.NewMnemonicOpts{EntropySize: 256})
	h := &hist{rec: rec, r: r, dir: filepath.Join(dir, "db"), chain: sim.NewChain(), words: words, real: true}
	os.MkdirAll(h.dir, 0755)
	h.pub = func() (*pubStore, error) {
		ss, err := boltsecurestore.NewSecureStorage(dir, "pubsub.db")
		if err != nil {
			return nil, err
		}
		svc, err := newPubSub(ss)
		if err != nil {
			return nil, err
		}
		return &pubStore{svc: svc, close: func() { svc.Store().Close() }, lock: svc.Store().IsLocked}, nil
	}
	if !h.start() {
		return
	}
	defer func() { h.stop() }()
	h.note("real sealing")
	h.check("start")
	first := "First passphrase " + r.Str(6)
	if rep := h.d.Init(words, first, false); len(rep.Errs) > 0 {
		h.bad("init-fails", "%v", rep.Errs)
		return
	}
	h.pass = first
	h.rec.Count("inits", 1)
	h.ps.settle()
	h.check("init")
	steps := []func(){
		func() { h.unlock(h.wrongPass()) },
		func() { h.change(h.wrongPass(), "Evil "+r.Str(8)) },
		func() { h.change(h.pass, h.newPass()) },
		func() { h.unlock(first) },
		func() { h.unlock(h.pass) },
		func() { h.ps.settle(); h.scan(dir) },
		h.restart,
		func() { h.unlock(h.pass) },
		func() { h.d.Operator.DepositFeeAccount(bg, 2) },
		h.restart,
		func() { h.scan(dir) },
	}
	for _, f := range steps {
		if h.dead {
			return
		}
		f()
	}
	if !h.dead {
		rec.Count("real_sessions", 1)
	}
}

func main() {
	rec := sim.Start("one opening of sealed data or one comparison of the wallet's state with the model")
	sh := sim.Shard()
	if sh < 0 {
		rec.Assume("passphrases equal up to trailing NUL bytes are the same passphrase (PBKDF2)")
		// the storage keeps every database of a process alive after closing it:
		// few restarts per process
		rec.RunShards(rec.N(34, 200))
		rec.NeedAtLeast("states_checked", 200)
		rec.NeedAtLeast("sealed_opened", 4)
		rec.NeedAtLeast("corrupted_or_wrong_refused", 100)
		rec.NeedAtLeast("files_scanned", 3)
		rec.Finish()
		return
	}
	done, _ := sim.Within(10*time.Minute, func() {
		r := rec.Rng("c09")
		domain.EncrypterManager = tidy{domain.EncrypterManager}
		if sh < 2 {
			for i := 0; i < rec.N(1, 6); i++ {
				realSession(rec, r)
			}
		} else if sh < 6 {
			for i := 0; i < rec.N(1, 10); i++ {
				sealing(rec, r.Fork(), rec.N(3, 8))
			}
		}
		if sh >= 6 {
			sim.UseFastEncrypter()
			for i := 0; i < 5; i++ {
				history(rec, r, i, 20)
			}
		}
	})
	if !done {
		rec.Violate("hang", "the wallet does not answer")
	}
	rec.Finish()
}

func newPubSub(ss securestore.SecureStorage) (ports.SecurePubSub, error) {
	return webhookpubsub.NewWebhookPubSubService(ss, esplora.NewHTTPClient(2*time.Second))
}
