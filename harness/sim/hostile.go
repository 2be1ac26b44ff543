package sim

import (
	"encoding/base64"

	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// MutatePset corrupts a PSET: its bytes, or the structure under them. It
// returns "" for what cannot be serialised.
func MutatePset(g *Rng, b64 string) string {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil || g.Chance(4) {
		// bytes
		raw, _ := base64.StdEncoding.DecodeString(b64)
		for k := 1 + g.Intn(3); k > 0 && len(raw) > 6; k-- {
			switch g.Intn(4) {
			case 0:
				raw = raw[:g.Intn(len(raw))]
			case 1:
				raw[g.Intn(len(raw))] = byte(g.Intn(256))
			case 2:
				i := g.Intn(len(raw))
				raw = append(raw[:i], raw[i+g.Intn(len(raw)-i):]...)
			default:
				raw[5+g.Intn(60)%(len(raw)-5)] ^= 1 << uint(g.Intn(8))
			}
		}
		return base64.StdEncoding.EncodeToString(raw)
	}
	junk := func() []byte {
		switch g.Intn(6) {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			return []byte{byte(g.Intn(256))}
		case 3:
			return RandBytes(33)
		case 4:
			return append([]byte{1}, RandBytes(8)...)
		}
		return RandBytes(g.Intn(80))
	}
	for k := 1 + g.Intn(2); k > 0; k-- {
		i := g.Intn(len(p.Inputs))
		switch g.Intn(14) {
		case 0:
			p.Inputs[i].WitnessUtxo = nil
		case 1:
			p.Inputs[i].WitnessUtxo = nil
			p.Inputs[i].NonWitnessUtxo = &transaction.Transaction{Version: 2}
		case 2:
			if p.Inputs[i].WitnessUtxo != nil {
				p.Inputs[i].WitnessUtxo.Script = junk()
			}
		case 3:
			if p.Inputs[i].WitnessUtxo != nil {
				p.Inputs[i].WitnessUtxo.Asset = junk()
			}
		case 4:
			if p.Inputs[i].WitnessUtxo != nil {
				p.Inputs[i].WitnessUtxo.Value = junk()
			}
		case 5:
			if p.Inputs[i].WitnessUtxo != nil {
				p.Inputs[i].WitnessUtxo.RangeProof = junk()
			}
		case 6:
			if p.Inputs[i].WitnessUtxo != nil {
				p.Inputs[i].WitnessUtxo.Nonce = junk()
			}
		case 7:
			if len(p.UnsignedTx.Outputs) > 0 {
				p.UnsignedTx.Outputs[g.Intn(len(p.UnsignedTx.Outputs))].Asset = junk()
			}
		case 8:
			if len(p.UnsignedTx.Outputs) > 0 {
				p.UnsignedTx.Outputs[g.Intn(len(p.UnsignedTx.Outputs))].Value = junk()
			}
		case 9:
			if len(p.UnsignedTx.Outputs) > 0 {
				p.UnsignedTx.Outputs[g.Intn(len(p.UnsignedTx.Outputs))].Script = junk()
			}
		case 10:
			if len(p.UnsignedTx.Outputs) > 0 {
				p.UnsignedTx.Outputs[g.Intn(len(p.UnsignedTx.Outputs))].Nonce = junk()
			}
		case 11:
			p.Inputs = p.Inputs[:i]
			p.UnsignedTx.Inputs = p.UnsignedTx.Inputs[:i]
			if i == 0 {
				k = 0
			}
		case 12:
			p.Inputs[i].RedeemScript = junk()
			p.Inputs[i].WitnessScript = junk()
		default:
			p.Inputs[i].NonWitnessUtxo = &transaction.Transaction{Version: 2}
			p.UnsignedTx.Inputs[i].Index = uint32(g.Intn(1 << 30))
		}
		if len(p.Inputs) == 0 {
			break
		}
	}
	s := ""
	func() {
		defer func() { recover() }() // what cannot be serialised cannot arrive
		s, _ = p.ToBase64()
	}()
	return s
}

// ReplacePrevout makes the first input of a PSET claim to spend another output.
func ReplacePrevout(b64 string, out *transaction.TxOutput) string {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil || len(p.Inputs) == 0 {
		return ""
	}
	p.Inputs[0].WitnessUtxo = out
	s, err := p.ToBase64()
	if err != nil {
		return ""
	}
	return s
}
