package main

import (
	"fmt"
	"math/big"
	mrand "math/rand"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"

	"verif/harness/core"
	"verif/harness/ref"
)

type (
	C   = core.C
	NI  = common.NodeIndex
	Pt  = ref.Point
	Int = big.Int
)

const K = curve.K256

func ni(i int) NI         { return NI(i) }
func bi(i int64) *Int     { return big.NewInt(i) }
func X(i NI) *Int         { return new(big.Int).Add(bi(int64(i)), bi(1)) } // evaluation point of a node
func hex(b []byte) string { return fmt.Sprintf("%x", b) }

// S makes a library scalar.
func S(x *Int) curve.EccScalar {
	s, err := curve.Scalar.Deserialize(K, ref.Bytes32(x))
	if err != nil {
		panic(fmt.Sprintf("canonical scalar %x refused: %v", x, err))
	}
	return s
}
func Ss(xs []*Int) []curve.EccScalar {
	out := make([]curve.EccScalar, len(xs))
	for i := range xs {
		out[i] = S(xs[i])
	}
	return out
}

// s reads a library scalar.
func sv(s curve.EccScalar) *Int { return new(big.Int).SetBytes(s.Serialize()) }
func svs(ss []curve.EccScalar) []*Int {
	out := make([]*Int, len(ss))
	for i := range ss {
		out[i] = sv(ss[i])
	}
	return out
}

// P makes a library point.
func P(p Pt) curve.EccPoint {
	if p.Inf {
		return curve.Point.Identity(K)
	}
	r, err := curve.Point.Deserialize(K, p.Compressed())
	if err != nil {
		panic(fmt.Sprintf("canonical point %x refused: %v", p.Compressed(), err))
	}
	return r
}

// PZ makes a library point in a different internal representation (Z != 1).
func PZ(p Pt, k *Int) curve.EccPoint {
	q := P(ref.MulG(k))
	a := P(p)
	a = a.Clone().AddPoints(a, q)
	return a.Clone().SubPoints(a, q)
}

// PR picks a representation at random.
func PR(c *C, p Pt) curve.EccPoint {
	if c.Bool() {
		return P(p)
	}
	return PZ(p, c.RandScalar())
}

// pv reads a library point from its coordinates.
func pv(p curve.EccPoint) Pt {
	if p.IsInfinity() {
		return ref.Infinity()
	}
	x, y := p.AffineX().BigInt(), p.AffineY().BigInt()
	return Pt{X: x, Y: y}
}
func pvs(ps []curve.EccPoint) []Pt {
	out := make([]Pt, len(ps))
	for i := range ps {
		out[i] = pv(ps[i])
	}
	return out
}
func peq(p curve.EccPoint, q Pt) bool    { return pv(p).Equal(q) }
func seq(s curve.EccScalar, v *Int) bool { return sv(s).Cmp(v) == 0 && s.BigInt().Cmp(v) == 0 }

// Sd makes a library seed from generated bytes.
func Sd(c *C) *seed.Seed { return seed.FromBytes(c.Bytes(32)) }

func sha(b []byte, n int) []byte { // capped printing
	if len(b) > n {
		return b[:n]
	}
	return b
}

func polyCoeffs(c *C, n int) []*Int {
	out := make([]*Int, n)
	for i := range out {
		out[i] = c.Scalar()
	}
	return out
}
func randPoly(c *C, n int) []*Int {
	out := make([]*Int, n)
	for i := range out {
		out[i] = c.RandScalar()
	}
	return out
}

func shuffled(r *mrand.Rand, xs []int) []int {
	out := append([]int{}, xs...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// distinctIndices returns n distinct node indices; style 0: 0..n-1, 1: gapped, 2: wide.
func distinctIndices(c *C, n int) []NI {
	seen := map[int]bool{}
	out := []NI{}
	style := c.Int(4)
	for i := 0; len(out) < n; i++ {
		v := i
		switch style {
		case 1:
			v = c.Int(4*n + 4)
		case 2:
			v = c.Index()
		case 3:
			v = c.WideIndex()
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, NI(v))
		}
	}
	c.R.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
