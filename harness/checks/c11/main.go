// Monitor of C11: the encrypted key-value store.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
)

// ---- seam: the database file after every commit -------------------------

type image struct {
	b   []byte
	seq int64
}

type tap struct {
	mu   sync.Mutex
	on   bool
	imgs []image
	n    int64
}

var taps sync.Map // path -> *tap

type db struct {
	kvdb.Backend
	path string
	wmu  sync.Mutex
}

type rwtx struct {
	kvdb.RwTx
	d    *db
	once sync.Once
}

func (d *db) BeginReadWriteTx() (kvdb.RwTx, error) {
	d.wmu.Lock()
	tx, err := d.Backend.BeginReadWriteTx()
	if err != nil {
		d.wmu.Unlock()
		return nil, err
	}
	return &rwtx{RwTx: tx, d: d}, nil
}

func (t *rwtx) Commit() error {
	err := t.RwTx.Commit()
	t.once.Do(func() {
		if err == nil {
			t.d.snap()
		}
		t.d.wmu.Unlock()
	})
	return err
}

func (t *rwtx) Rollback() error {
	err := t.RwTx.Rollback()
	t.once.Do(func() { t.d.wmu.Unlock() })
	return err
}

// Batch may commit its callers one by one: every state in between is a
// possible crash state.
func (d *db) Batch(f func(tx kvdb.RwTx) error) error { return kvdb.Update(d, f, func() {}) }

func (d *db) snap() {
	v, ok := taps.Load(d.path)
	if !ok {
		return
	}
	t := v.(*tap)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n++
	if !t.on {
		return
	}
	b, err := ioutil.ReadFile(d.path)
	if err == nil {
		t.imgs = append(t.imgs, image{b, t.n})
		if len(t.imgs) > 64 { // keep the ends
			t.imgs = append(t.imgs[:32], t.imgs[33:]...)
		}
	}
}

func tapOf(path string) *tap {
	v, _ := taps.LoadOrStore(path, &tap{})
	return v.(*tap)
}

func (t *tap) arm() { t.mu.Lock(); t.on, t.imgs = true, nil; t.mu.Unlock() }
func (t *tap) take() []image {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.on = false
	i := t.imgs
	t.imgs = nil
	return i
}

// ---- model ---------------------------------------------------------------

type model map[string]map[string][]byte // "" is the root bucket

func (m model) clone() model {
	c := model{}
	for b, kv := range m {
		n := map[string][]byte{}
		for k, v := range kv {
			n[k] = v
		}
		c[b] = n
	}
	return c
}

func (m model) buckets() []string {
	var s []string
	for b := range m {
		if b != "" {
			s = append(s, b)
		}
	}
	sort.Strings(s)
	return s
}

func q(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q...(%d)", s[:24], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// diff compares everything readable from the store with the model.
func diff(s securestore.SecureStorage, m model) string {
	bs, err := s.ListBuckets()
	if err != nil {
		return "listing buckets: " + err.Error()
	}
	got := []string{}
	for _, b := range bs {
		got = append(got, string(b))
	}
	sort.Strings(got)
	if strings.Join(got, "\x00|") != strings.Join(m.buckets(), "\x00|") {
		return fmt.Sprintf("buckets %q, expected %q", got, m.buckets())
	}
	for b, kv := range m {
		all, err := s.GetAllFromBucket([]byte(b))
		if err != nil {
			return fmt.Sprintf("reading bucket %s: %v", q(b), err)
		}
		for k, v := range kv {
			if !bytes.Equal(all[k], v) {
				return fmt.Sprintf("bucket %s key %s lists %d bytes, expected %d", q(b), q(k), len(all[k]), len(v))
			}
			g, err := s.GetFromBucket([]byte(b), []byte(k))
			if err != nil || !bytes.Equal(g, v) {
				return fmt.Sprintf("bucket %s key %s reads %d bytes (%v), expected %d", q(b), q(k), len(g), err, len(v))
			}
		}
		for k := range all {
			if _, ok := kv[k]; !ok {
				return fmt.Sprintf("bucket %s has the extra key %s", q(b), q(k))
			}
		}
	}
	return ""
}

// ---- generation ----------------------------------------------------------

var nasty = []string{"a", "b", "_", "a_b", "a_", "_a", "__", "root", "enc", "enckeyy", "enckey_", "key", "\x00",
	"a\x00b", "\xff\xfe", "a/b", "0", "x_y_z", "é", " ", "TRADE_SETTLED", "b_a", "topic_1"}

func name(r *sim.Rng) string {
	switch r.Intn(6) {
	case 0:
		return string(r.Bytes(1 + r.Intn(40)))
	case 1:
		return nasty[r.Intn(len(nasty))] + nasty[r.Intn(len(nasty))]
	case 2:
		return nasty[r.Intn(len(nasty))] + "_" + nasty[r.Intn(len(nasty))]
	default:
		return nasty[r.Intn(len(nasty))]
	}
}

func value(r *sim.Rng) []byte {
	switch r.Intn(8) {
	case 0:
		return r.Bytes(1)
	case 1:
		return r.Bytes(1000 + r.Intn(9000))
	case 2:
		return make([]byte, 1+r.Intn(64))
	default:
		return r.Bytes(12 + r.Intn(120))
	}
}

func password(r *sim.Rng) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte("p")
	case 1:
		return r.Bytes(1 + r.Intn(80))
	case 2:
		return []byte("pass\x00word" + string(r.Bytes(8)))
	default:
		return []byte(fmt.Sprintf("passphrase-%x", r.Bytes(6)))
	}
}

func wrong(r *sim.Rng, pw []byte) []byte {
	w := append([]byte{}, pw...)
	switch r.Intn(4) {
	case 0:
		w[r.Intn(len(w))] ^= 1
	case 1:
		w = append(w, 'x')
	case 2:
		w = append([]byte{'x'}, w...)
	default:
		w = []byte("another")
	}
	if bytes.Equal(w, pw) {
		w = append(w, 'y')
	}
	return w
}

// ---- sessions --------------------------------------------------------------

type sess struct {
	rec  *sim.Rec
	r    *sim.Rng
	dir  string
	s    securestore.SecureStorage
	m    model
	pw   []byte // nil before the first unlock
	open bool   // unlocked
	log  []string
	n    int
	old  [][]byte
}

func (x *sess) note(f string, a ...interface{}) {
	x.log = append(x.log, fmt.Sprintf(f, a...))
	if len(x.log) > 12 {
		x.log = x.log[1:]
	}
}

func (x *sess) bad(sig, f string, a ...interface{}) {
	x.rec.Violate(sig, "%s; last operations: %s", fmt.Sprintf(f, a...), strings.Join(x.log, "; "))
}

func (x *sess) path() string { return filepath.Join(x.dir, "s.db") }

func (x *sess) start() bool {
	s, err := boltsecurestore.NewSecureStorage(x.dir, "s.db")
	if err != nil {
		x.bad("store-does-not-open", "opening the store: %v", err)
		return false
	}
	x.s, x.open = s, false
	return true
}

func (x *sess) verify(when string) {
	if !x.open {
		return
	}
	if d := diff(x.s, x.m); d != "" {
		x.bad("records-lost-or-altered", "after %s: %s", when, d)
		x.m = nil // stop the session
	}
}

func (x *sess) pickBucket() string {
	bs := x.m.buckets()
	if len(bs) == 0 || x.r.Chance(3) {
		return ""
	}
	return bs[x.r.Intn(len(bs))]
}

// locked checks that nothing is accessible.
func (x *sess) locked() {
	if !x.s.IsLocked() {
		x.bad("not-locked", "the store does not report being locked")
		return
	}
	k := []byte("a")
	if v, err := x.s.GetFromBucket(nil, k); err == nil || v != nil {
		x.bad("readable-while-locked", "get answered %d bytes", len(v))
	}
	if v, err := x.s.GetAllFromBucket(nil); err == nil || len(v) > 0 {
		x.bad("readable-while-locked", "get all answered %d entries", len(v))
	}
	if v, err := x.s.ListBuckets(); err == nil || len(v) > 0 {
		x.bad("readable-while-locked", "list answered %d buckets", len(v))
	}
	if x.s.AddToBucket(nil, k, []byte("zz")) == nil {
		x.bad("writable-while-locked", "add was accepted")
	}
	if x.s.CreateBucket([]byte("zzz")) == nil {
		x.bad("writable-while-locked", "bucket creation was accepted")
	}
	if x.s.RemoveFromBucket(nil, k) == nil {
		x.bad("writable-while-locked", "removal was accepted")
	}
	if x.s.RemoveBucket(k) == nil {
		x.bad("writable-while-locked", "bucket removal was accepted")
	}
	if x.s.ChangePassword(x.pw, []byte("new")) == nil {
		x.bad("writable-while-locked", "password change was accepted")
	}
	x.rec.Count("locked_states_probed", 1)
}

func (x *sess) unlock() {
	if x.pw != nil && x.r.Chance(3) {
		w := wrong(x.r, x.pw)
		if len(x.old) > 0 && x.r.Bool() {
			if o := x.old[len(x.old)-1]; !bytes.Equal(o, x.pw) {
				w = o
			}
		}
		x.note("unlock with a wrong password")
		if err := x.s.CreateUnlock(&w); err == nil || !x.s.IsLocked() {
			x.bad("opens-with-wrong-password", "the store opened with a password that is not its current one")
			x.m = nil
			return
		}
		x.rec.Count("wrong_passwords_refused", 1)
	}
	if x.pw == nil {
		x.pw = password(x.r)
	}
	p := append([]byte{}, x.pw...)
	x.note("unlock")
	if err := x.s.CreateUnlock(&p); err != nil || x.s.IsLocked() {
		x.bad("current-password-refused", "the current password is refused: %v", err)
		x.m = nil
		return
	}
	x.open = true
	x.rec.Count("unlocks", 1)
}

func conflict(m model, bucket, key string) bool {
	if bucket != "" {
		return false
	}
	_, ok := m[key]
	return ok
}

func (x *sess) step() {
	r := x.r
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		b, k, v := x.pickBucket(), name(r), value(r)
		x.note("add %s/%s", q(b), q(k))
		err := x.s.AddToBucket([]byte(b), []byte(k), append([]byte{}, v...))
		legal := k != "" && k != "enckey" && !conflict(x.m, b, k)
		if (err == nil) != legal {
			x.bad("add-verdict", "adding %s/%s: %v", q(b), q(k), err)
		}
		if err == nil && legal {
			x.m[b][k] = v
		}
		x.rec.Count("writes", 1)
	case 4:
		k := name(r)
		x.note("bucket %s", q(k))
		err := x.s.CreateBucket([]byte(k))
		_, isKey := x.m[""][k]
		legal := k != "enckey" && !isKey
		if (err == nil) != legal {
			x.bad("bucket-verdict", "creating bucket %s: %v", q(k), err)
		}
		if err == nil && legal && x.m[k] == nil {
			x.m[k] = map[string][]byte{}
		}
	case 5:
		b := x.pickBucket()
		k := name(r)
		for kk := range x.m[b] {
			if r.Chance(2) {
				k = kk
			}
			break
		}
		x.note("remove %s/%s", q(b), q(k))
		err := x.s.RemoveFromBucket([]byte(b), []byte(k))
		legal := k != "enckey" && !conflict(x.m, b, k)
		if (err == nil) != legal {
			x.bad("remove-verdict", "removing %s/%s: %v", q(b), q(k), err)
		}
		if err == nil {
			delete(x.m[b], k)
		}
	case 6:
		b := x.pickBucket()
		if b == "" || !r.Chance(3) {
			return
		}
		x.note("remove bucket %s", q(b))
		if err := x.s.RemoveBucket([]byte(b)); err != nil {
			x.bad("remove-verdict", "removing bucket %s: %v", q(b), err)
		} else {
			delete(x.m, b)
		}
	case 7:
		b, k := x.pickBucket(), name(r)
		g, err := x.s.GetFromBucket([]byte(b), []byte(k))
		if k == "enckey" {
			return
		}
		if err != nil || !bytes.Equal(g, x.m[b][k]) {
			x.bad("records-lost-or-altered", "get %s/%s: %d bytes (%v), expected %d", q(b), q(k), len(g), err, len(x.m[b][k]))
		}
		x.rec.Count("reads", 1)
	case 8:
		// forbidden names must not reach the sealed key
		for _, f := range []func() error{
			func() error { return x.s.AddToBucket(nil, []byte("enckey"), []byte("zzz")) },
			func() error { return x.s.RemoveFromBucket(nil, []byte("enckey")) },
			func() error { return x.s.RemoveBucket([]byte("enckey")) },
			func() error { _, err := x.s.GetFromBucket(nil, []byte("enckey")); return err },
			func() error { return x.s.AddToBucket([]byte("nosuchbucket"), []byte("k"), []byte("v")) },
			func() error { return x.s.AddToBucket(nil, []byte("k"), nil) },
			func() error { return x.s.AddToBucket(nil, nil, []byte("v")) },
			func() error { return x.s.CreateBucket(nil) },
		} {
			if f() == nil {
				x.bad("forbidden-accepted", "an operation on a reserved or missing name was accepted")
			}
		}
		x.rec.Count("forbidden_refused", 8)
	default:
		p := append([]byte{}, x.pw...)
		if x.s.CreateUnlock(&p) != nil || x.s.IsLocked() {
			x.bad("unlock-of-unlocked", "unlocking an unlocked store failed")
		}
	}
}

// crash reopens an image in a directory of its own and compares it.
func (x *sess) crash(im image, what string, cands []struct {
	pw []byte
	m  model
}) {
	dir, err := ioutil.TempDir(x.dir, "crash")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	ioutil.WriteFile(filepath.Join(dir, "s.db"), im.b, 0600)
	s, err := boltsecurestore.NewSecureStorage(dir, "s.db")
	if err != nil {
		x.bad("crash-unreadable", "after a crash during %s the store does not open: %v", what, err)
		return
	}
	defer s.Close()
	var why []string
	for _, c := range cands {
		p := append([]byte{}, c.pw...)
		if err := s.CreateUnlock(&p); err != nil {
			why = append(why, err.Error())
			continue
		}
		d := diff(s, c.m)
		if d == "" {
			x.rec.Count("crash_images_checked", 1)
			x.rec.Eval("crash:" + what)
			return
		}
		why = append(why, d)
		s.Lock()
	}
	x.bad("crash-loses-records", "after a crash during %s (commit %d): %s", what, im.seq, strings.Join(why, " / "))
}

type cand = struct {
	pw []byte
	m  model
}

func (x *sess) change(depth int) {
	t := tapOf(x.path())
	if x.r.Chance(2) {
		w := wrong(x.r, x.pw)
		x.note("change password with a wrong old one")
		if x.s.ChangePassword(w, []byte("evil")) == nil {
			x.bad("changed-with-wrong-password", "the password was changed giving a wrong old one")
			x.m = nil
			return
		}
		if x.s.ChangePassword(nil, []byte("e")) == nil || x.s.ChangePassword(x.pw, nil) == nil {
			x.bad("changed-with-wrong-password", "a nil password was accepted")
		}
		x.rec.Count("wrong_changes_refused", 1)
		x.verify("a refused password change")
		if x.m == nil {
			return
		}
	}
	np := password(x.r)
	before := x.m.clone()
	t.arm()
	x.note("change password")
	err := x.s.ChangePassword(append([]byte{}, x.pw...), append([]byte{}, np...))
	imgs := t.take()
	if err != nil {
		x.bad("change-refused", "changing the password: %v", err)
		x.m = nil
		return
	}
	x.rec.Count("password_changes", 1)
	old := x.pw
	x.old = append(x.old, old)
	x.pw = np
	x.verify("a password change")
	if x.m == nil {
		return
	}
	x.rec.Count("commits_during_password_changes", int64(len(imgs)))
	// the states in between and the last one
	pick := map[int]bool{0: true, len(imgs) - 1: true, len(imgs) / 2: true, len(imgs) - 2: true}
	for i, im := range imgs {
		if !pick[i] {
			continue
		}
		x.crash(im, "a password change", []cand{{np, before}, {old, before}})
	}
}

func (x *sess) scan() {
	b, err := ioutil.ReadFile(x.path())
	if err != nil {
		return
	}
	for bk, kv := range x.m {
		for k, v := range kv {
			if len(v) >= 12 && !allZero(v) {
				if bytes.Contains(b, v[:12]) || bytes.Contains(b, v[len(v)-12:]) {
					x.bad("plaintext-on-disk", "the value of %s/%s is on disk in clear", q(bk), q(k))
				}
				x.rec.Count("values_looked_for_on_disk", 1)
			}
		}
	}
	for _, p := range append(x.old, x.pw) {
		if len(p) >= 8 && bytes.Contains(b, p) {
			x.bad("password-on-disk", "a password is on disk in clear")
		}
	}
}

func allZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

func session(rec *sim.Rec, r *sim.Rng, id int) {
	dir := filepath.Join(rec.Dir, fmt.Sprintf("s%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	x := &sess{rec: rec, r: r, dir: dir, m: model{"": {}}}
	defer func() {
		if x.s != nil {
			x.s.Close()
		}
	}()
	if !x.start() {
		return
	}
	x.locked()
	x.unlock()
	for phase := 0; phase < 3 && x.m != nil; phase++ {
		n := 10 + r.Intn(40)
		for i := 0; i < n && x.m != nil; i++ {
			one := r.Chance(30)
			before := x.m.clone()
			if one {
				tapOf(x.path()).arm()
			}
			x.step()
			rec.Eval("")
			if one && x.m != nil {
				for _, im := range tapOf(x.path()).take() {
					x.crash(im, "a write", []cand{{x.pw, x.m}, {x.pw, before}})
					break
				}
			}
		}
		x.verify("a series of operations")
		if x.m == nil {
			return
		}
		rec.Eval(fmt.Sprintf("%d:%d:%d", len(x.m), len(x.m[""]), phase))
		if phase == 0 || r.Bool() {
			x.change(0)
		}
		if x.m == nil {
			return
		}
		x.scan()
		switch r.Intn(3) {
		case 0:
			x.note("lock")
			x.s.Lock()
			x.open = false
			x.locked()
			x.unlock()
			x.verify("lock and unlock")
		case 1:
			x.note("close and reopen")
			if err := x.s.Close(); err != nil {
				x.bad("close", "closing: %v", err)
			}
			if x.s.IsLocked() == false {
				x.bad("not-locked", "a closed store is not locked")
			}
			if !x.start() {
				return
			}
			x.locked()
			x.unlock()
			x.verify("close and reopen")
			rec.Count("reopens", 1)
		}
	}
	if x.m != nil {
		rec.Count("sessions", 1)
		if id < 2 {
			rec.Sample(map[string]interface{}{"session": id, "buckets": len(x.m), "last": x.log})
		}
	}
}

// concurrent: writers and readers run while the password is changed and the
// store locked and unlocked; every acknowledged write must be there after.
func concurrent(rec *sim.Rec, r *sim.Rng, id int) {
	dir := filepath.Join(rec.Dir, fmt.Sprintf("c%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	s, err := boltsecurestore.NewSecureStorage(dir, "s.db")
	if err != nil {
		rec.Violate("store-does-not-open", "%v", err)
		return
	}
	defer s.Close()
	pw := []byte("one-password")
	cp := func() *[]byte { p := append([]byte{}, pw...); return &p }
	if err := s.CreateUnlock(cp()); err != nil {
		rec.Violate("current-password-refused", "%v", err)
		return
	}
	bucks := []string{"", "b", "b_1"}
	s.CreateBucket([]byte("b"))
	s.CreateBucket([]byte("b_1"))
	var stop int32
	var wg sync.WaitGroup
	acked := make([]model, 4)
	for w := range acked {
		w := w
		acked[w] = model{"": {}, "b": {}, "b_1": {}}
		seed := r.U64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := sim.NewRng(seed)
			ok, site, msg := sim.Guard(func() {
				for i := 0; atomic.LoadInt32(&stop) == 0 && i < 4000; i++ {
					b := bucks[rr.Intn(3)]
					k := fmt.Sprintf("w%d_%d", w, rr.Intn(60))
					v := rr.Bytes(16)
					err := s.AddToBucket([]byte(b), []byte(k), v)
					if err == nil {
						acked[w][b][k] = v
						rec.Count("concurrent_writes_acknowledged", 1)
					} else if err != boltsecurestore.ErrStoreLocked {
						rec.Violate("concurrent-write-error", "a write during lock/re-key: %v", err)
					}
					g, err := s.GetFromBucket([]byte(b), []byte(k))
					if err == nil && !bytes.Equal(g, acked[w][b][k]) {
						rec.Violate("concurrent-read", "reading back %s/%s during lock/re-key: %d bytes, expected %d", b, k, len(g), len(acked[w][b][k]))
					} else if err != nil && err != boltsecurestore.ErrStoreLocked {
						rec.Violate("concurrent-read", "reading back %s/%s during lock/re-key: %v", b, k, err)
					}
					if i%8 == 0 {
						time.Sleep(time.Duration(rr.Intn(3000)) * time.Microsecond)
					}
				}
			})
			if !ok {
				rec.Violate("panic:"+site, "an operation concurrent with lock/re-key panics: %s", msg)
			}
		}()
	}
	for i := 0; i < 3; i++ {
		time.Sleep(time.Duration(20+r.Intn(60)) * time.Millisecond)
		np := []byte(fmt.Sprintf("password-%d", i))
		if err := s.ChangePassword(*cp(), append([]byte{}, np...)); err != nil {
			rec.Violate("change-refused", "changing the password under load: %v", err)
			break
		}
		pw = np
		rec.Count("concurrent_password_changes", 1)
		time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
		s.Lock()
		time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
		if err := s.CreateUnlock(cp()); err != nil {
			rec.Violate("current-password-refused", "after a password change under load: %v", err)
			break
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	all := model{"": {}, "b": {}, "b_1": {}}
	for _, m := range acked {
		for b, kv := range m {
			for k, v := range kv {
				all[b][k] = v
			}
		}
	}
	if d := diff(s, all); d != "" {
		rec.Violate("concurrent-records-lost", "after writes concurrent with password changes: %s", d)
	}
	s.Close()
	s2, err := boltsecurestore.NewSecureStorage(dir, "s.db")
	if err != nil {
		rec.Violate("store-does-not-open", "%v", err)
		return
	}
	defer s2.Close()
	if err := s2.CreateUnlock(cp()); err != nil {
		rec.Violate("current-password-refused", "after reopening: %v", err)
	} else if d := diff(s2, all); d != "" {
		rec.Violate("concurrent-records-lost", "after reopening: %s", d)
	}
	rec.Eval(fmt.Sprintf("conc:%d", id))
}

func main() {
	rec := sim.Start("a whole-store comparison after generated operations, password changes, reopens and crashes")
	orig := kvdb.Create
	kvdb.Create = func(t string, args ...interface{}) (kvdb.Backend, error) {
		b, err := orig(t, args...)
		if err != nil || len(args) == 0 {
			return b, err
		}
		p, ok := args[0].(string)
		if !ok {
			return b, err
		}
		return &db{Backend: b, path: p}, nil
	}
	rec.Assume("a crash leaves the database as some committed transaction left it (bolt's atomicity)")
	ns, nc := rec.N(56, 420), rec.N(10, 60)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < ns+nc; i++ {
		i := i
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rec.Rng(fmt.Sprintf("s%d", i))
			done, _ := sim.Within(5*time.Minute, func() {
				ok, site, msg := sim.Guard(func() {
					if i%5 == 4 && i/5 < nc {
						concurrent(rec, r, i)
					} else {
						session(rec, r, i)
					}
				})
				if !ok {
					rec.Violate("panic:"+site, "%s", msg)
				}
			})
			if !done {
				rec.Violate("hang", "session %d does not finish", i)
			}
		}()
	}
	wg.Wait()
	rec.NeedAtLeast("sessions", 1)
	rec.NeedAtLeast("password_changes", 10)
	rec.NeedAtLeast("concurrent_writes_acknowledged", 50)
	rec.Finish()
}
