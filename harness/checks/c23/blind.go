package main

import (
	"bytes"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/confidential"
)

// opens tells whether the reported blinders, asset and value recommit to the
// reported commitments.
func opens(u explorer.Utxo) bool {
	ac, err := confidential.AssetCommitment(sim.AssetTag(u.Asset()), u.AssetBlinder())
	if err != nil {
		return false
	}
	vc, err := confidential.ValueCommitment(u.Value(), ac, u.ValueBlinder())
	_, out, perr := u.Parse()
	return err == nil && perr == nil && bytes.Equal(ac, out.Asset) && bytes.Equal(vc, out.Value)
}
