package sim

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"

	"github.com/btcsuite/btcutil/psbt"
	"github.com/vulpemventures/go-elements/transaction"
)

var errUnbounded = errors.New("transaction is malformed")

// BoundedTx tells whether the lengths a raw transaction declares fit its size
// (go-elements allocates what is declared).
func BoundedTx(txHex string) error {
	buf, err := hex.DecodeString(txHex)
	if err != nil {
		return err
	}
	r := &walker{buf: buf}
	r.skipTx()
	return r.err
}

// BoundedPset is like BoundedTx but for a PSET in base64 format.
func BoundedPset(psetBase64 string) error {
	buf, err := base64.StdEncoding.DecodeString(psetBase64)
	if err != nil {
		return err
	}

	r := &walker{buf: buf}
	r.next(5) // magic bytes

	// the unsigned transaction is always the first of the global section
	key, value := r.nextKeyValue()
	if r.err != nil || len(key) != 1 ||
		psbt.GlobalType(key[0]) != psbt.UnsignedTxType {
		return errUnbounded
	}
	tx := &walker{buf: value}
	ins, outs := tx.skipTx()
	if tx.err != nil {
		return tx.err
	}

	// it's followed by a section of key-value pairs for the rest of the global
	// ones, for every input and for every output.
	for i := uint64(0); i < 1+ins+outs && r.err == nil; i++ {
		for r.err == nil {
			key, value := r.nextKeyValue()
			if len(key) <= 0 {
				break
			}
			if isInput := i > 0 && i <= ins; !isInput {
				continue
			}
			field := &walker{buf: value}
			switch psbt.InputType(key[0]) {
			case psbt.NonWitnessUtxoType:
				field.skipTx()
			case psbt.WitnessUtxoType:
				if field.skipOutput() {
					field.skipSlice()
					field.skipSlice()
				}
			}
			if field.err != nil {
				return field.err
			}
		}
	}

	return r.err
}

type walker struct {
	buf []byte
	err error
}

func (r *walker) next(n uint64) []byte {
	if r.err != nil || n > uint64(len(r.buf)) {
		r.err = errUnbounded
		return make([]byte, 8)
	}
	b := r.buf[:n]
	r.buf = r.buf[n:]
	return b
}

func (r *walker) nextVarInt() uint64 {
	switch prefix := r.next(1)[0]; prefix {
	case 0xff:
		return binary.LittleEndian.Uint64(r.next(8))
	case 0xfe:
		return uint64(binary.LittleEndian.Uint32(r.next(4)))
	case 0xfd:
		return uint64(binary.LittleEndian.Uint16(r.next(2)))
	default:
		return uint64(prefix)
	}
}

// nextKeyValue returns an empty key at the end of a section.
func (r *walker) nextKeyValue() (key, value []byte) {
	keyLen := r.nextVarInt()
	if keyLen <= 0 || r.err != nil {
		return nil, nil
	}
	key = r.next(keyLen)
	value = r.next(r.nextVarInt())
	if r.err != nil {
		return nil, nil
	}
	return
}

func (r *walker) skipSlice() {
	r.next(r.nextVarInt())
}

func (r *walker) skipVector() {
	count := r.nextVarInt()
	for i := uint64(0); i < count && r.err == nil; i++ {
		r.skipSlice()
	}
}

func (r *walker) skipValue() {
	switch r.next(1)[0] {
	case 1:
		r.next(8)
	case 8, 9:
		r.next(32)
	}
}

// skipOutput returns whether the output is a confidential one.
func (r *walker) skipOutput() bool {
	r.next(33)
	r.skipValue()
	nonce := r.next(1)[0]
	isConfidential := nonce >= 1 && nonce <= 3
	if isConfidential {
		r.next(32)
	}
	r.skipSlice()
	return isConfidential
}

// skipTx returns the number of inputs and outputs of the transaction.
func (r *walker) skipTx() (ins, outs uint64) {
	r.next(4)
	hasWitness := r.next(1)[0] == 1

	ins = r.nextVarInt()
	for i := uint64(0); i < ins && r.err == nil; i++ {
		r.next(32)
		index := binary.LittleEndian.Uint32(r.next(4))
		r.skipSlice()
		r.next(4)
		if index != transaction.MinusOne &&
			index&transaction.OutpointIssuanceFlag != 0 {
			r.next(64)
			r.skipValue()
			r.skipValue()
		}
	}

	outs = r.nextVarInt()
	for i := uint64(0); i < outs && r.err == nil; i++ {
		r.skipOutput()
	}
	r.next(4)

	if hasWitness {
		for i := uint64(0); i < ins && r.err == nil; i++ {
			r.skipSlice()
			r.skipSlice()
			r.skipVector()
			r.skipVector()
		}
		for i := uint64(0); i < outs && r.err == nil; i++ {
			r.skipSlice()
			r.skipSlice()
		}
	}
	return
}
