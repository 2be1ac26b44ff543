package sim

import (
	"context"
	"github.com/vulpemventures/go-elements/transaction"
	"sort"

	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
)

// PlainUtxo builds an explicit, confirmed coin.
func PlainUtxo(hash string, idx uint32, value uint64, asset string, script []byte) explorer.Utxo {
	return esplora.NewWitnessUtxo(hash, idx, value, asset, "", "", nil, nil, script, nil, nil, nil, true)
}

// SortedKeys of a string-keyed count map.
func SortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var nilCtx = context.Background()

// VSize is the virtual size of a final transaction, from its two serialised
// forms.
func VSize(hx string) int {
	tx, err := transaction.NewTxFromHex(hx)
	if err != nil {
		return 0
	}
	total := len(hx) / 2
	for _, in := range tx.Inputs {
		in.Witness, in.IssuanceRangeProof, in.InflationRangeProof, in.PeginWitness = nil, nil, nil, nil
	}
	for _, o := range tx.Outputs {
		o.RangeProof, o.SurjectionProof = nil, nil
	}
	base, err := tx.ToHex()
	if err != nil {
		return 0
	}
	n := len(base) / 2
	if tx.HasWitness() { // written as empty
		n -= 4*len(tx.Inputs) + 2*len(tx.Outputs)
	}
	return (n*3 + total + 3) / 4
}
