package sim

import (
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"strings"
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

type fastEncrypter struct{}

func tag(pass string) string { h := sha256.Sum256([]byte("t" + pass)); return hex.EncodeToString(h[:]) }

func (fastEncrypter) Encrypt(mnemonic, pass string) (string, error) {
	if mnemonic == "" || pass == "" {
		return "", errors.New("null argument")
	}
	return tag(pass) + ":" + hex.EncodeToString([]byte(mnemonic)), nil
}

func (fastEncrypter) Decrypt(c, pass string) (string, error) {
	p := strings.SplitN(c, ":", 2)
	if len(p) != 2 || p[0] != tag(pass) {
		return "", errors.New("invalid passphrase")
	}
	b, err := hex.DecodeString(p[1])
	return string(b), err
}

// UseFastEncrypter replaces the deliberately slow sealing of the seed by one
// that only checks the passphrase. C09 does not use it.
func UseFastEncrypter() { domain.EncrypterManager = fastEncrypter{} }

// MemStore is a mnemonic store of the harness (the daemon's own lives in its
// global configuration).
type MemStore struct {
	mu sync.RWMutex
	w  []string
}

func (m *MemStore) Set(s string) { m.mu.Lock(); m.w = strings.Split(s, " "); m.mu.Unlock() }
func (m *MemStore) Unset()       { m.mu.Lock(); m.w = nil; m.mu.Unlock() }
func (m *MemStore) IsSet() bool  { m.mu.RLock(); defer m.mu.RUnlock(); return len(m.w) > 0 }
func (m *MemStore) Get() []string {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return append([]string{}, m.w...)
}
