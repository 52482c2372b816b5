//go:build verif_access

package main

import "github.com/PlatONnetwork/tecdsa/poly"

func init() { deserializeCommitment = poly.VerifDeserializeCommitment }
