package main

import "github.com/PlatONnetwork/tecdsa/poly"

// deserializeCommitment is nil if the decoder is not reachable.
var deserializeCommitment func(b []byte) (poly.PolynomialCommitment, error)
