//go:build verif_export

package checks

import "github.com/PlatONnetwork/tecdsa/poly"

func init() { decodeCommitment = poly.VerifDeserializeCommitment }
