package sim

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"os"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcutil"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/go-secp256k1-zkp"
)

var zero32 = make([]byte, 32)

// The crypto library creates a shared context at its first use without
// locking; C23 looks at that in processes of its own.
func init() {
	if os.Getenv("C23_BURST") == "" {
		confidential.AssetCommitment(make([]byte, 32), make([]byte, 32))
	}
}

// RandBytes returns bytes of the system generator; they never decide anything.
func RandBytes(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	if n > 0 {
		b[0] &= 0x7f
	}
	return b
}

// AssetTag is the 32-byte internal form of an asset id in hex.
func AssetTag(asset string) []byte {
	b, _ := hex.DecodeString(asset)
	return elementsutil.ReverseBytes(b)
}

// AssetBytes is the 33-byte explicit encoding of an asset.
func AssetBytes(asset string) []byte { return append([]byte{1}, AssetTag(asset)...) }

// ExplicitValue is the 9-byte explicit encoding of a value.
func ExplicitValue(v uint64) []byte {
	b, _ := elementsutil.SatoshiToElementsValue(v)
	return b
}

// ExplicitOut builds an explicit output.
func ExplicitOut(asset string, value uint64, script []byte) *transaction.TxOutput {
	return transaction.NewTxOutput(AssetBytes(asset), ExplicitValue(value), script)
}

// ConfOut builds a confidential output (valid range and surjection proofs
// against an input with the same explicit asset).
func ConfOut(asset string, value uint64, script, blindPub []byte) (*transaction.TxOutput, error) {
	abf, vbf, eph := RandBytes(32), RandBytes(32), RandBytes(32)
	tag := AssetTag(asset)
	ac, err := confidential.AssetCommitment(tag, abf)
	if err != nil {
		return nil, err
	}
	vc, err := confidential.ValueCommitment(value, ac, vbf)
	if err != nil {
		return nil, err
	}
	nonce, err := confidential.NonceHash(blindPub, eph)
	if err != nil {
		return nil, err
	}
	var vbf32 [32]byte
	copy(vbf32[:], vbf)
	rp, err := confidential.RangeProof(confidential.RangeProofArgs{
		Value: value, Nonce: nonce, Asset: append([]byte{}, tag...), AssetBlindingFactor: abf,
		ValueBlindFactor: vbf32, ValueCommit: vc, ScriptPubkey: script, MinBits: 36,
	})
	if err != nil {
		return nil, err
	}
	sp, ok := confidential.SurjectionProof(confidential.SurjectionProofArgs{
		OutputAsset: tag, OutputAssetBlindingFactor: abf,
		InputAssets: [][]byte{tag}, InputAssetBlindingFactors: [][]byte{zero32},
		Seed: RandBytes(32),
	})
	if !ok {
		return nil, errors.New("surjection proof")
	}
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), eph)
	return &transaction.TxOutput{
		Asset: ac, Value: vc, Script: script, Nonce: pub.SerializeCompressed(),
		RangeProof: rp, SurjectionProof: sp,
	}, nil
}

// Opened is the content of an output.
type Opened struct {
	Asset string
	Value uint64
	Conf  bool

	ValueBlinder, AssetBlinder []byte
}

// OpenOut reveals an output, with the key if it is confidential. It does not
// rely on the repository's own unblinding; the revealed value is re-committed
// and compared with the output's commitments.
func OpenOut(out *transaction.TxOutput, key []byte) (Opened, bool) {
	if !out.IsConfidential() {
		if len(out.Asset) != 33 || out.Asset[0] != 1 || len(out.Value) != 9 {
			return Opened{}, false
		}
		v, err := elementsutil.ElementsToSatoshiValue(out.Value)
		if err != nil {
			return Opened{}, false
		}
		return Opened{Asset: hex.EncodeToString(elementsutil.ReverseBytes(out.Asset[1:])), Value: v}, true
	}
	if len(key) == 0 {
		return Opened{}, false
	}
	r, err := confidential.UnblindOutputWithKey(out, key)
	if err != nil || r == nil {
		return Opened{}, false
	}
	ac, err := confidential.AssetCommitment(r.Asset, r.AssetBlindingFactor)
	if err != nil || !bytes.Equal(ac, out.Asset) {
		return Opened{}, false
	}
	vc, err := confidential.ValueCommitment(r.Value, ac, r.ValueBlindingFactor)
	if err != nil || !bytes.Equal(vc, out.Value) {
		return Opened{}, false
	}
	return Opened{Asset: hex.EncodeToString(elementsutil.ReverseBytes(r.Asset)), Value: r.Value, Conf: true, ValueBlinder: r.ValueBlindingFactor, AssetBlinder: r.AssetBlindingFactor}, true
}

type point struct{ x, y *big.Int }

var curveP = btcec.S256().P

// liftQR decodes a commitment or blinded generator: the low bit of the prefix
// says whether y is the negation of the square root that is itself a square.
func liftQR(b []byte) (point, error) {
	x := new(big.Int).SetBytes(b[1:33])
	if x.Cmp(curveP) >= 0 {
		return point{}, errors.New("x too large")
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), curveP)
	y2.Add(y2, big.NewInt(7)).Mod(y2, curveP)
	e := new(big.Int).Add(curveP, big.NewInt(1))
	e.Rsh(e, 2)
	y := new(big.Int).Exp(y2, e, curveP)
	c := new(big.Int).Mul(y, y)
	c.Mod(c, curveP)
	if c.Cmp(y2) != 0 {
		return point{}, errors.New("not on curve")
	}
	if b[0]&1 == 1 {
		y.Sub(curveP, y)
	}
	return point{x, y}, nil
}

func addPoints(a *point, b point) {
	if a.x == nil {
		*a = b
		return
	}
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Cmp(curveP) == 0 {
			*a = point{}
			return
		}
		x, y := btcec.S256().Double(a.x, a.y)
		*a = point{x, y}
		return
	}
	x, y := btcec.S256().Add(a.x, a.y, b.x, b.y)
	*a = point{x, y}
}

func negPoint(p point) point {
	if p.x == nil {
		return p
	}
	return point{p.x, new(big.Int).Sub(curveP, p.y)}
}

func assetGen(ctx *secp256k1.Context, asset []byte) (*secp256k1.Generator, error) {
	if len(asset) != 33 {
		return nil, fmt.Errorf("asset of %d bytes", len(asset))
	}
	if asset[0] == 1 {
		return secp256k1.GeneratorGenerate(ctx, asset[1:])
	}
	return secp256k1.GeneratorParse(ctx, asset)
}

func commitPoint(ctx *secp256k1.Context, o *transaction.TxOutput) (point, error) {
	if len(o.Value) == 33 {
		return liftQR(o.Value)
	}
	v, err := elementsutil.ElementsToSatoshiValue(o.Value)
	if err != nil {
		return point{}, err
	}
	if v == 0 {
		return point{}, nil
	}
	gen, err := assetGen(ctx, o.Asset)
	if err != nil {
		return point{}, err
	}
	c, err := secp256k1.Commit(ctx, zero32, v, gen)
	if err != nil {
		return point{}, err
	}
	cb := c.Bytes()
	return liftQR(cb[:])
}

// VerifyAmounts checks what consensus checks of a transaction's amounts: the
// commitments balance and the proofs of every confidential output are valid.
func VerifyAmounts(prevouts []*transaction.TxOutput, outs []*transaction.TxOutput) error {
	ctx, err := secp256k1.ContextCreate(secp256k1.ContextBoth)
	if err != nil {
		return err
	}
	defer secp256k1.ContextDestroy(ctx)
	var sum point
	gens := make([]*secp256k1.Generator, 0, len(prevouts))
	for i, o := range prevouts {
		p, err := commitPoint(ctx, o)
		if err != nil {
			return fmt.Errorf("input %d commitment: %s", i, err)
		}
		if p.x != nil {
			addPoints(&sum, p)
		}
		g, err := assetGen(ctx, o.Asset)
		if err != nil {
			return fmt.Errorf("input %d asset: %s", i, err)
		}
		gens = append(gens, g)
	}
	for i, o := range outs {
		p, err := commitPoint(ctx, o)
		if err != nil {
			return fmt.Errorf("output %d commitment: %s", i, err)
		}
		if p.x == nil && len(o.Script) > 0 && !(len(o.Script) > 0 && o.Script[0] == txscript.OP_RETURN) {
			return fmt.Errorf("output %d has zero value", i)
		}
		if p.x != nil {
			addPoints(&sum, negPoint(p))
		}
		if len(o.Value) == 33 {
			g, err := assetGen(ctx, o.Asset)
			if err != nil {
				return fmt.Errorf("output %d asset: %s", i, err)
			}
			c, err := secp256k1.CommitmentParse(ctx, o.Value)
			if err != nil {
				return fmt.Errorf("output %d value: %s", i, err)
			}
			if len(o.RangeProof) == 0 || !secp256k1.RangeProofVerify(ctx, o.RangeProof, c, o.Script, g) {
				return fmt.Errorf("output %d range proof invalid", i)
			}
		}
		if len(o.Asset) == 33 && o.Asset[0] != 1 {
			g, err := assetGen(ctx, o.Asset)
			if err != nil {
				return fmt.Errorf("output %d asset: %s", i, err)
			}
			if len(o.SurjectionProof) == 0 {
				return fmt.Errorf("output %d lacks surjection proof", i)
			}
			sp, err := secp256k1.SurjectionProofParse(ctx, o.SurjectionProof)
			if err != nil {
				return fmt.Errorf("output %d surjection proof: %s", i, err)
			}
			if !secp256k1.SurjectionProofVerify(ctx, sp, gens, g) {
				return fmt.Errorf("output %d surjection proof invalid", i)
			}
		}
	}
	if sum.x != nil {
		return errors.New("amounts do not balance")
	}
	return nil
}

// P2WPKH returns the witness script of a compressed public key.
func P2WPKH(pub []byte) []byte {
	return append([]byte{0x00, 0x14}, btcutil.Hash160(pub)...)
}

// VerifyWitness checks the P2WPKH witness of one input.
func VerifyWitness(tx *transaction.Transaction, i int, prev *transaction.TxOutput) error {
	in := tx.Inputs[i]
	if len(prev.Script) != 22 || prev.Script[0] != 0 || prev.Script[1] != 0x14 {
		return errors.New("not a p2wpkh output")
	}
	if len(in.Script) != 0 {
		return errors.New("script sig not empty")
	}
	if len(in.Witness) != 2 {
		return fmt.Errorf("witness has %d items", len(in.Witness))
	}
	sig, pub := in.Witness[0], in.Witness[1]
	if !bytes.Equal(P2WPKH(pub), prev.Script) {
		return errors.New("public key does not match")
	}
	pk, err := btcec.ParsePubKey(pub, btcec.S256())
	if err != nil {
		return err
	}
	if len(sig) < 9 {
		return errors.New("signature too short")
	}
	ht := txscript.SigHashType(sig[len(sig)-1])
	if ht != txscript.SigHashAll {
		return fmt.Errorf("sighash type %d", ht)
	}
	ps, err := btcec.ParseDERSignature(sig[:len(sig)-1], btcec.S256())
	if err != nil {
		return err
	}
	code := append([]byte{0x76, 0xa9, 0x14}, prev.Script[2:]...)
	code = append(code, 0x88, 0xac)
	h := tx.HashForWitnessV0(i, code, prev.Value, ht)
	if !ps.Verify(h[:], pk) {
		return errors.New("signature invalid")
	}
	return nil
}

// LieOut is a confidential output of an asset whose range proof says another
// one to who opens it.
func LieOut(asset, claimed string, value uint64, script, blindPub []byte) (*transaction.TxOutput, error) {
	return craftedOut(asset, claimed, value, script, blindPub, 0, 36, true)
}

// ShortOut is a valid confidential output whose range proof has no room for
// the asset.
func ShortOut(asset string, value uint64, script, blindPub []byte, exact bool) (*transaction.TxOutput, error) {
	if exact {
		return craftedOut(asset, asset, value, script, blindPub, -1, 0, false)
	}
	return craftedOut(asset, asset, value&1, script, blindPub, 0, 1, false)
}

func craftedOut(asset, claimed string, value uint64, script, blindPub []byte, exp, bits int, msg bool) (*transaction.TxOutput, error) {
	abf, vbf, eph := RandBytes(32), RandBytes(32), RandBytes(32)
	tag := AssetTag(asset)
	ac, err := confidential.AssetCommitment(tag, abf)
	if err != nil {
		return nil, err
	}
	vc, err := confidential.ValueCommitment(value, ac, vbf)
	if err != nil {
		return nil, err
	}
	nonce, err := confidential.NonceHash(blindPub, eph)
	if err != nil {
		return nil, err
	}
	ctx, err := secp256k1.ContextCreate(secp256k1.ContextBoth)
	if err != nil {
		return nil, err
	}
	defer secp256k1.ContextDestroy(ctx)
	gen, err := secp256k1.GeneratorParse(ctx, ac)
	if err != nil {
		return nil, err
	}
	com, err := secp256k1.CommitmentParse(ctx, vc)
	if err != nil {
		return nil, err
	}
	var m []byte
	if msg {
		m = append(append([]byte{}, AssetTag(claimed)...), abf...)
	}
	min := uint64(0)
	if exp < 0 {
		min = value
	}
	var vbf32 [32]byte
	copy(vbf32[:], vbf)
	rp, err := secp256k1.RangeProofSign(ctx, min, com, vbf32, nonce, exp, bits, value, m, script, gen)
	if err != nil {
		return nil, err
	}
	sp, ok := confidential.SurjectionProof(confidential.SurjectionProofArgs{
		OutputAsset: tag, OutputAssetBlindingFactor: abf,
		InputAssets: [][]byte{tag}, InputAssetBlindingFactors: [][]byte{zero32},
		Seed: RandBytes(32),
	})
	if !ok {
		return nil, errors.New("surjection proof")
	}
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), eph)
	return &transaction.TxOutput{
		Asset: ac, Value: vc, Script: script, Nonce: pub.SerializeCompressed(),
		RangeProof: rp, SurjectionProof: sp,
	}, nil
}
