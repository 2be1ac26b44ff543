package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"gopkg.in/macaroon-bakery.v2/bakery"
	"gopkg.in/macaroon-bakery.v2/bakery/checkers"
	macaroon "gopkg.in/macaroon.v2"
)

func parse(b []byte) (*macaroon.Macaroon, bool) {
	m := &macaroon.Macaroon{}
	var err error
	func() {
		defer func() {
			if recover() != nil {
				err = macaroons.ErrStoreLocked
			}
		}()
		err = m.UnmarshalBinary(b)
	}()
	return m, err == nil
}

func bin(m *macaroon.Macaroon) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// same tells whether two macaroons say the same.
func same(a, b *macaroon.Macaroon) bool {
	if !bytes.Equal(a.Id(), b.Id()) || !bytes.Equal(a.Signature(), b.Signature()) || len(a.Caveats()) != len(b.Caveats()) {
		return false
	}
	for i, c := range a.Caveats() {
		d := b.Caveats()[i]
		if !bytes.Equal(c.Id, d.Id) || !bytes.Equal(c.VerificationId, d.VerificationId) {
			return false
		}
	}
	return true
}

// narrow adds one caveat; holds tells whether it is met by a caller at 127.0.0.1.
func narrow(r *sim.Rng, m *macaroon.Macaroon) (*macaroon.Macaroon, bool, string) {
	add := func(cs ...macaroons.Constraint) *macaroon.Macaroon {
		n, err := macaroons.AddConstraints(m, cs...)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return n
	}
	raw := func(s string) *macaroon.Macaroon {
		return add(func(m *macaroon.Macaroon) error { return m.AddFirstPartyCaveat([]byte(s)) })
	}
	switch r.Intn(10) {
	case 0:
		return add(macaroons.TimeoutConstraint(int64(3600 + r.Intn(3600)))), true, "time ok"
	case 1:
		return add(macaroons.TimeoutConstraint(-int64(1 + r.Intn(3600)))), false, "expired"
	case 2:
		return add(macaroons.IPLockConstraint("127.0.0.1")), true, "ip ok"
	case 3:
		return add(macaroons.IPLockConstraint([]string{"127.0.0.2", "10.0.0.1", "::1", "0.0.0.0"}[r.Intn(4)])), false, "other ip"
	case 4:
		return raw(r.Str(6) + " " + r.Str(4)), false, "unknown caveat"
	case 5:
		return raw(checkers.ErrorCaveatf("no").Condition), false, "error caveat"
	case 6:
		return add(macaroons.IPLockConstraint("")), true, "no lock"
	case 7:
		return add(macaroons.TimeoutConstraint(3600), macaroons.IPLockConstraint("127.0.0.1")), true, "two ok"
	case 8:
		return raw("time-before " + time.Unix(int64(r.Intn(1600000000)), 0).UTC().Format(time.RFC3339)), false, "long expired"
	default:
		return raw("ipaddr " + r.Str(5)), false, "bad ip"
	}
}

// tamper makes bytes that are not a macaroon of the daemon, or nil. others are
// macaroons of the same daemon.
func tamper(r *sim.Rng, m *macaroon.Macaroon, others []*macaroon.Macaroon) ([]byte, string) {
	orig := bin(m)
	ok := func(b []byte, kind string) ([]byte, string) {
		if n, valid := parse(b); valid {
			for _, o := range append([]*macaroon.Macaroon{m}, others...) {
				if same(o, n) {
					return nil, ""
				}
			}
		}
		return b, kind
	}
	edit := func(kind string, f func(v map[string]interface{})) ([]byte, string) {
		j, err := m.MarshalJSON()
		if err != nil {
			panic("harness: " + err.Error())
		}
		v := map[string]interface{}{}
		if err := json.Unmarshal(j, &v); err != nil {
			panic("harness: " + err.Error())
		}
		f(v)
		j, _ = json.Marshal(v)
		n := &macaroon.Macaroon{}
		if err := n.UnmarshalJSON(j); err != nil {
			return nil, ""
		}
		return ok(bin(n), kind)
	}
	var o *macaroon.Macaroon
	if len(others) > 0 {
		o = others[r.Intn(len(others))]
	}
	setID := func(v map[string]interface{}, id []byte) {
		delete(v, "i")
		v["i64"] = base64.RawURLEncoding.EncodeToString(id)
	}
	switch r.Intn(9) {
	case 0, 1: // bit flip
		b := append([]byte{}, orig...)
		b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		return ok(b, "bit flip")
	case 2:
		return ok(orig[:r.Intn(len(orig))], "truncated")
	case 3: // the last caveat removed
		return edit("caveat stripped", func(v map[string]interface{}) {
			if c, _ := v["c"].([]interface{}); len(c) > 0 {
				k := r.Intn(len(c))
				v["c"] = append(append([]interface{}{}, c[:k]...), c[k+1:]...)
			}
		})
	case 4: // a caveat nobody signed for
		return edit("caveat added unsigned", func(v map[string]interface{}) {
			c, _ := v["c"].([]interface{})
			v["c"] = append(append([]interface{}{}, c...), map[string]interface{}{"i": "time-before 2100-01-01T00:00:00Z"})
		})
	case 5: // the id of a more powerful one
		if o == nil {
			return nil, ""
		}
		return edit("id swapped", func(v map[string]interface{}) { setID(v, o.Id()) })
	case 6: // signature of another
		if o == nil {
			return nil, ""
		}
		return edit("signature swapped", func(v map[string]interface{}) {
			delete(v, "s")
			v["s64"] = base64.RawURLEncoding.EncodeToString(o.Signature())
		})
	case 7: // minted for the same id under another root key
		key := r.Bytes(32)
		if r.Bool() {
			key = make([]byte, 32)
		}
		if r.Intn(5) == 0 {
			key = nil
		}
		n, err := macaroon.New(key, m.Id(), m.Location(), macaroon.LatestVersion)
		if err != nil {
			return nil, ""
		}
		return ok(bin(n), "foreign root key")
	default: // an id that embeds other permissions
		id := append([]byte{}, m.Id()...)
		for _, w := range [][2]string{{"read", "none"}, {"none", "read"}, {"price", "pricE"}, {"webhook", "wallets"}, {"market", "wallet"}, {"wallet", "market"}} {
			if bytes.Contains(id, []byte(w[0])) && len(w[0]) == len(w[1]) {
				id = bytes.Replace(id, []byte(w[0]), []byte(w[1]), -1)
				break
			}
		}
		return edit("id edited", func(v map[string]interface{}) { setID(v, id) })
	}
}

func subset(need, have []bakery.Op) bool {
	for _, n := range need {
		ok := false
		for _, h := range have {
			ok = ok || h == n
		}
		if !ok {
			return false
		}
	}
	return true
}
