package sim

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/vulpemventures/go-elements/payment"
)

// An own derivation of the keys of a seed (BIP39, BIP32, SLIP77), which shares
// no code with the wallet library of the repository.

func hmac512(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

// Bip39Seed is the seed of a mnemonic with no passphrase.
func Bip39Seed(words []string) []byte {
	pass := []byte(strings.Join(words, " "))
	u := hmac512(pass, append([]byte("mnemonic"), 0, 0, 0, 1))
	out := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		u = hmac512(pass, u)
		for j := range out {
			out[j] ^= u[j]
		}
	}
	return out
}

type xkey struct{ k, c []byte }

func pad32(b []byte) []byte { return append(make([]byte, 32-len(b)), b...) }

func (x xkey) child(i uint32) xkey {
	var d []byte
	if i >= 0x80000000 {
		d = append([]byte{0}, x.k...)
	} else {
		_, pub := btcec.PrivKeyFromBytes(btcec.S256(), x.k)
		d = pub.SerializeCompressed()
	}
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], i)
	h := hmac512(x.c, append(d, n[:]...))
	k := new(big.Int).SetBytes(h[:32])
	k.Add(k, new(big.Int).SetBytes(x.k))
	k.Mod(k, btcec.S256().N)
	return xkey{pad32(k.Bytes()), h[32:]}
}

// KeyAt is one address of a seed.
type KeyAt struct {
	Account, Chain, Index int
	Script                []byte
	Address               string // confidential
	Plain                 string
	Priv, Blind           []byte
}

// KeyRing derives the addresses of a seed.
type KeyRing struct {
	mu     sync.Mutex
	base   xkey // m/84'/0'
	blind  []byte
	seen   map[string]*KeyAt
	chains map[[2]int]*ringChain
}

type ringChain struct {
	x    xkey
	keys []*KeyAt
}

// NewKeyRing makes the ring of a mnemonic.
func NewKeyRing(words []string) *KeyRing {
	seed := Bip39Seed(words)
	m := hmac512([]byte("Bitcoin seed"), seed)
	root := hmac512([]byte("Symmetric key seed"), seed)
	node := hmac512(root[:32], append([]byte{0}, "SLIP-0077"...))
	return &KeyRing{
		base: xkey{m[:32], m[32:]}.child(0x80000000 + 84).child(0x80000000), blind: node[32:],
		seen: map[string]*KeyAt{}, chains: map[[2]int]*ringChain{},
	}
}

// BlindKey is the blinding key of a script.
func (r *KeyRing) BlindKey(script []byte) []byte {
	h := hmac.New(sha256.New, r.blind)
	h.Write(script)
	return h.Sum(nil)
}

// PrivAt is the signing key of a path under m/84'/0'.
func (r *KeyRing) PrivAt(path ...uint32) []byte {
	x := r.base
	for _, p := range path {
		x = x.child(p)
	}
	return x.k
}

// At is the address of an account's chain at an index.
func (r *KeyRing) At(account, chain, index int) *KeyAt {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.at(account, chain, index)
}

func (r *KeyRing) at(account, chain, index int) *KeyAt {
	c := r.chains[[2]int{account, chain}]
	if c == nil {
		c = &ringChain{x: r.base.child(0x80000000 + uint32(account)).child(uint32(chain))}
		r.chains[[2]int{account, chain}] = c
	}
	for len(c.keys) <= index {
		x := c.x.child(uint32(len(c.keys)))
		_, pub := btcec.PrivKeyFromBytes(btcec.S256(), x.k)
		script := P2WPKH(pub.SerializeCompressed())
		bk := r.BlindKey(script)
		_, bpub := btcec.PrivKeyFromBytes(btcec.S256(), bk)
		p := payment.FromPublicKey(pub, Net, bpub)
		conf, err := p.ConfidentialWitnessPubKeyHash()
		if err != nil {
			panic("harness: " + err.Error())
		}
		plain, _ := p.WitnessPubKeyHash()
		k := &KeyAt{account, chain, len(c.keys), script, conf, plain, x.k, bk}
		c.keys = append(c.keys, k)
		r.seen[hex.EncodeToString(script)] = k
	}
	return c.keys[index]
}

// Find tells whose script it is among the first `gap` addresses past those
// already derived of the accounts below `accounts`; nil if nobody's.
func (r *KeyRing) Find(script []byte, accounts, gap int) *KeyAt {
	r.mu.Lock()
	defer r.mu.Unlock()
	id := hex.EncodeToString(script)
	if k := r.seen[id]; k != nil {
		return k
	}
	for a := 0; a < accounts; a++ {
		for ch := 0; ch < 2; ch++ {
			n := 0
			if c := r.chains[[2]int{a, ch}]; c != nil {
				n = len(c.keys)
			}
			r.at(a, ch, n+gap-1)
			if k := r.seen[id]; k != nil {
				return k
			}
		}
	}
	return nil
}

// PlainKey is the address of a key and a blinding key.
func PlainKey(priv, blind []byte) *KeyAt {
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), priv)
	_, bpub := btcec.PrivKeyFromBytes(btcec.S256(), blind)
	p := payment.FromPublicKey(pub, Net, bpub)
	conf, err := p.ConfidentialWitnessPubKeyHash()
	if err != nil {
		panic("harness: " + err.Error())
	}
	plain, _ := p.WitnessPubKeyHash()
	return &KeyAt{-1, -1, -1, P2WPKH(pub.SerializeCompressed()), conf, plain, priv, blind}
}
