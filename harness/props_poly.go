package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/fxamacker/cbor/v2"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C08", MinEval: 500,
		Rule: "one evaluation compares one polynomial operation with coefficient arithmetic mod n in math/big; distinct by operation and operands",
		Gens: []core.Gen{
			{Name: "arith", Quick: 900, Thorough: 40000, Run: c08arith},
			{Name: "eval", Quick: 700, Thorough: 30000, Run: c08eval},
			{Name: "interpolate", Quick: 500, Thorough: 15000, Run: c08interp},
			{Name: "random", Quick: 300, Thorough: 5000, Run: c08random},
			{Name: "large-arith", Quick: 12, Thorough: 200, Run: c08arith},
			{Name: "large-eval", Quick: 21, Thorough: 400, Run: c08eval},
			{Name: "large-interpolate", Quick: 13, Thorough: 200, Run: c08interp},
			{Name: "large-random", Quick: 21, Thorough: 200, Run: c08random},
			{Name: "sweep-arith", Quick: 72, Thorough: 720, Run: c08arith},
			{Name: "sweep-eval", Quick: 72, Thorough: 720, Run: c08eval},
			{Name: "sweep-interpolate", Quick: 72, Thorough: 720, Run: c08interp},
		}})
	core.Register(&core.Prop{ID: "C09", MinEval: 300,
		Rule: "one evaluation compares the coefficients or an interpolated value with an independent Lagrange computation; distinct by node set, value and samples",
		Gens: []core.Gen{
			{Name: "scalar", Quick: 700, Thorough: 30000, Run: c09scalar},
			{Name: "point", Quick: 150, Thorough: 5000, Run: c09point},
			{Name: "refuse", Quick: 300, Thorough: 8000, Run: c09refuse},
			{Name: "large-scalar", Quick: 16, Thorough: 300, Run: c09scalar},
			{Name: "large-point", Quick: 13, Thorough: 200, Run: c09point},
			{Name: "sweep-scalar", Quick: 72, Thorough: 720, Run: c09scalar},
			{Name: "sweep-point", Quick: 72, Thorough: 720, Run: c09point},
		}})
	core.Register(&core.Prop{ID: "C10", MinEval: 500,
		Rule: "one evaluation decides one commitment, opening check, equality or representation against the committed polynomials; distinct by commitment, index and opening",
		Gens: []core.Gen{
			{Name: "create", Quick: 300, Thorough: 10000, Run: c10create},
			{Name: "opening", Quick: 160, Thorough: 6000, Run: c10opening},
			{Name: "equal", Quick: 250, Thorough: 8000, Run: c10equal},
			{Name: "large-create", Quick: 16, Thorough: 300, Run: c10create},
			{Name: "large-opening", Quick: 13, Thorough: 200, Run: c10opening},
			{Name: "large-equal", Quick: 21, Thorough: 300, Run: c10equal},
			{Name: "sweep-create", Quick: 72, Thorough: 720, Run: c10create},
			{Name: "sweep-opening", Quick: 72, Thorough: 720, Run: c10opening},
		}})
	core.Register(&core.Prop{ID: "C11", MinEval: 500,
		Rule: "one evaluation round-trips or decodes one serialization of a commitment, opening or share; distinct by object bytes",
		Gens: []core.Gen{
			{Name: "opening", Quick: 400, Thorough: 15000, Run: c11opening},
			{Name: "commitment", Quick: 250, Thorough: 8000, Run: c11commitment},
			{Name: "corrupt", Quick: 500, Thorough: 20000, Run: c11corrupt},
			{Name: "bytes", Quick: 150, Thorough: 3000, Run: c11bytes},
			{Name: "large-commitment", Quick: 21, Thorough: 300, Run: c11commitment},
			{Name: "kept", Quick: 24, Thorough: 1500, Run: c11kept},
			{Name: "large-corrupt", Quick: 21, Thorough: 300, Run: c11corrupt},
		}})
}

// ---------- C08 ----------

// bigSizes are the sizes of the "large" generators: the boundaries at which
// batched, chunked or windowed code and length encodings change.
var bigSizes = []int{17, 33, 65, 129, 256, 24, 9, 25, 16, 32, 64, 128, 255, 257, 8, 15, 23, 31, 63, 127, 300}

func isLarge(c *C) bool { return strings.HasPrefix(c.Gen, "large") || isSweep(c) }

// isSweep: sweep generators take every size in turn.
func isSweep(c *C) bool { return strings.HasPrefix(c.Gen, "sweep") }

// sz is n, or in a large generator the next boundary size up to limit.
func sz(c *C, n, limit int) int {
	if !isLarge(c) {
		return n
	}
	if isSweep(c) {
		c.Obs("sizes swept", 1)
		return c.I%72 + 1
	}
	var s []int
	for _, x := range bigSizes {
		if x <= limit {
			s = append(s, x)
		}
	}
	n = s[(c.I+c.I/len(s))%len(s)]
	c.Obs(fmt.Sprintf("size %d", n), 1)
	return n
}

// coeffList: lists with zero, leading-zero and interior-zero patterns.
func coeffList(c *C, max int) []*Int {
	n := c.Int(max + 1)
	if isLarge(c) && c.Int(3) > 0 {
		n = max
	}
	out := polyCoeffs(c, n)
	switch c.Int(5) {
	case 0:
		for i := n - c.Int(n+1); i < n; i++ { // leading zeros
			out[i] = new(big.Int)
		}
	case 1:
		for i := range out {
			if c.Bool() {
				out[i] = new(big.Int)
			}
		}
	case 2:
		if c.Int(3) == 0 {
			for i := range out {
				out[i] = new(big.Int)
			}
		}
	}
	return out
}
func mkPoly(a []*Int) *poly.Polynomial { return poly.Poly.New(K, Ss(a)) }
func at(a []*Int, i int) *Int {
	if i < len(a) {
		return a[i]
	}
	return new(big.Int)
}
func padd(a, b []*Int) []*Int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	out := make([]*Int, n)
	for i := range out {
		out[i] = ref.Add(at(a, i), at(b, i))
	}
	return out
}
func pmul(a, b []*Int) []*Int {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	out := make([]*Int, len(a)+len(b)-1)
	for i := range out {
		out[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			out[i+j] = ref.Add(out[i+j], ref.Mul(a[i], b[j]))
		}
	}
	return out
}
func pscale(a []*Int, s *Int) []*Int {
	out := make([]*Int, len(a))
	for i := range a {
		out[i] = ref.Mul(a[i], s)
	}
	return out
}
func degreeOf(a []*Int) int { // -1 for the zero polynomial
	for i := len(a) - 1; i >= 0; i-- {
		if a[i].Sign() != 0 {
			return i
		}
	}
	return -1
}
func pEq(p *poly.Polynomial, want []*Int) string {
	for i := 0; i < len(want)+3; i++ {
		if g := p.Coeff(i); !seq(g, at(want, i)) {
			return fmt.Sprintf("coefficient %d is %x, want %x", i, sv(g), at(want, i))
		}
	}
	return ""
}
func key(a []*Int) string { return fmt.Sprintf("%x", a) }

func c08arith(c *C) {
	m := sz(c, 8, 129)
	a, b := coeffList(c, m), coeffList(c, m)
	if c.Int(6) == 0 {
		b = append([]*Int{}, a...)
	}
	if c.Int(6) == 0 { // sum cancels
		b = pscale(a, ref.Neg(bi(1)))
	}
	s := c.Scalar()
	type op struct {
		name string
		do   func(r, x, y *poly.Polynomial) *poly.Polynomial
		want []*Int
	}
	for _, o := range []op{
		{"Add", func(r, x, y *poly.Polynomial) *poly.Polynomial { return r.Add(x, y) }, padd(a, b)},
		{"Mul", func(r, x, y *poly.Polynomial) *poly.Polynomial { return r.Mul(x, y) }, pmul(a, b)},
		{"MulScalar", func(r, x, y *poly.Polynomial) *poly.Polynomial { return r.MulScalar(x, S(s)) }, pscale(a, s)},
	} {
		for mode := 0; mode < 4; mode++ {
			x, y := mkPoly(a), mkPoly(b)
			var r *poly.Polynomial
			switch mode {
			case 0:
				r = poly.Poly.Zero(K)
			case 1:
				r = x
			case 2:
				r = y
			case 3:
				r = mkPoly(coeffList(c, m+4))
			}
			var got *poly.Polynomial
			c.NoPanic(o.name, fmt.Sprintf("%s of %d and %d coefficients, receiver mode %d", o.name, len(a), len(b), mode), func() { got = o.do(r, x, y) })
			if e := pEq(got, o.want); e != "" {
				c.Fail(o.name, "%s(%s, %s) receiver mode %d: %s", o.name, key(a), key(b), mode, e)
			}
			c.Check(pEq(r, o.want) == "", o.name, "%s does not leave the result in the receiver", o.name)
			if mode != 1 {
				c.Check(pEq(x, a) == "", o.name+"-operand", "%s changed its left operand", o.name)
			}
			if mode != 2 {
				c.Check(pEq(y, b) == "", o.name+"-operand", "%s changed its right operand", o.name)
			}
			c.Check((got.IsZero() == 1) == (degreeOf(o.want) < 0), "IsZero", "IsZero of %s wrong", key(o.want))
			c.Check(got.Equal(mkPoly(o.want)) == 1, "Equal", "result of %s not Equal to %s", o.name, key(o.want))
			pad := append(append([]*Int{}, o.want...), bi(0), bi(0))
			c.Check(got.Equal(mkPoly(pad)) == 1 && mkPoly(pad).Equal(got) == 1, "Equal", "padding with zeros makes polynomials unequal")
		}
		c.Ev(o.name, key(a), key(b), s)
	}
	// equality decides equality of coefficients
	eq := degreeOf(padd(a, pscale(b, ref.Neg(bi(1))))) < 0
	c.Check((mkPoly(a).Equal(mkPoly(b)) == 1) == eq, "Equal", "Equal(%s,%s) != %v", key(a), key(b), eq)
	if n := len(a); n > 0 {
		d := append([]*Int{}, a...)
		i := c.Int(n)
		d[i] = ref.Add(d[i], bi(1))
		c.Check(mkPoly(a).Equal(mkPoly(d)) == 0 && mkPoly(d).Equal(mkPoly(a)) == 0, "Equal", "polynomials differing in coefficient %d of %d are Equal", i, n)
	}
	d := append(append([]*Int{}, a...), c.RandScalar())
	c.Check(mkPoly(a).Equal(mkPoly(d)) == 0 && mkPoly(d).Equal(mkPoly(a)) == 0, "Equal", "polynomials of different degree are Equal")
	c.Ev("Equal", key(a), key(b))
	c.Note("a=%s", key(a))
}

func c08eval(c *C) {
	a := coeffList(c, sz(c, 20, 300))
	p := mkPoly(a)
	for i := 0; i < 4; i++ {
		x := c.Scalar()
		lx := S(x)
		g := p.EvaluateAt(lx)
		c.Check(seq(g, ref.Eval(a, x)), "EvaluateAt", "f(%x) = %x want %x for f=%s", x, sv(g), ref.Eval(a, x), key(a))
		c.Check(seq(lx, x) && pEq(p, a) == "", "EvaluateAt-operand", "EvaluateAt changed its operands")
		c.Ev(key(a), x)
	}
	// Coeff hands out a copy
	k := p.Coeff(0)
	k.Add(k, S(bi(1)))
	c.Check(pEq(p, a) == "", "Coeff", "changing a returned coefficient changes the polynomial")
	c.Check(pEq(poly.Poly.Zero(K), nil) == "" && poly.Poly.Zero(K).IsZero() == 1, "Zero", "zero polynomial is not zero")
	c.Check((p.IsZero() == 1) == (degreeOf(a) < 0), "IsZero", "IsZero(%s) = %d", key(a), p.IsZero())
}

func distinctX(c *C, n int) []*Int {
	seen := map[string]bool{}
	var out []*Int
	small := c.Int(3) == 0
	for len(out) < n {
		x := c.Scalar()
		if small {
			x = bi(int64(c.Int(3*n + 2)))
		}
		if !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, x)
		}
	}
	return out
}

func c08interp(c *C) {
	max := 8
	if c.Thorough() && c.Int(20) == 0 {
		max = 30
	}
	n := sz(c, c.Int(max+1), 65)
	xs := distinctX(c, n)
	var ys []*Int
	f := coeffList(c, n)
	style := c.Int(4)
	for _, x := range xs {
		switch style {
		case 0: // arbitrary values
			ys = append(ys, c.Scalar())
		default: // samples of a polynomial of degree < n, often much lower (redundant samples)
			ys = append(ys, ref.Eval(f, x))
		}
	}
	if style != 0 {
		if n > 0 && degreeOf(f) < n-1 {
			c.Obs("redundant sample sets", 1)
		}
	}
	mk := func() [][2]curve.EccScalar {
		s := make([][2]curve.EccScalar, len(xs))
		for i := range xs {
			s[i] = [2]curve.EccScalar{S(xs[i]), S(ys[i])}
		}
		return s
	}
	want := ref.Interpolate(xs, ys)
	if style != 0 {
		want = f
	}
	sm := mk()
	p, err := poly.Poly.Interpolate(K, sm)
	if err != nil {
		c.Fail("Interpolate", "interpolating %d samples with distinct x (polynomial degree %d) refused: %v", n, degreeOf(want), err)
	}
	if e := pEq(p, want); e != "" {
		c.Fail("Interpolate", "interpolating %d samples: %s", n, e)
	}
	for i := range xs {
		c.Check(seq(p.EvaluateAt(S(xs[i])), ys[i]), "Interpolate", "polynomial misses sample %d", i)
		c.Check(seq(sm[i][0], xs[i]) && seq(sm[i][1], ys[i]), "Interpolate-operand", "Interpolate changed its samples")
	}
	c.Ev(key(xs), key(ys))
	if n >= 1 { // repeated x is refused
		i, j := c.Int(n), c.Int(n+1)
		y := ys[i]
		if c.Bool() {
			y = c.Scalar()
		}
		xs2 := append(append(append([]*Int{}, xs[:j]...), xs[i]), xs[j:]...)
		ys2 := append(append(append([]*Int{}, ys[:j]...), y), ys[j:]...)
		xs, ys = xs2, ys2
		_, err := poly.Poly.Interpolate(K, mk())
		c.Check(err != nil, "Interpolate-duplicate", "repeated x=%x among %d samples accepted (same y: %v)", xs[j], n+1, y == ys[i])
		c.Ev("dup", key(xs), key(ys))
		c.Obs("repeated-x sets refused", 1)
	}
	c.Note("n=%d style=%d xs=%s", n, style, key(xs))
}

func c08random(c *C) {
	n := sz(c, c.Int(12), 300)
	sd := c.Bytes(32)
	p := poly.Poly.Random(K, n, seed.FromBytes(sd).Rng())
	q := poly.Poly.Random(K, n, seed.FromBytes(sd).Rng())
	c.Check(p.Equal(q) == 1, "Random", "same seed gives different polynomials")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		v := sv(p.Coeff(i)).String()
		c.Check(v != "0" && !seen[v], "Random", "random coefficient %d is zero or repeated", i)
		seen[v] = true
	}
	c.Check(seq(p.Coeff(n), bi(0)), "Random", "Random(%d) has more than %d coefficients", n, n)
	k := c.Scalar()
	w, err := poly.Poly.RandomWithConstant(S(k), n, seed.FromBytes(sd).Rng())
	if n == 0 {
		c.Check(err != nil, "RandomWithConstant", "zero coefficients accepted")
	} else {
		c.Check(err == nil, "RandomWithConstant", "refused: %v", err)
		c.Check(seq(w.Coeff(0), k) && seq(w.EvaluateAt(S(bi(0))), k), "RandomWithConstant", "constant is %x, want %x", sv(w.Coeff(0)), k)
		seen = map[string]bool{k.String(): true}
		for i := 1; i < n; i++ {
			v := sv(w.Coeff(i)).String()
			c.Check(v != "0" && !seen[v], "RandomWithConstant", "coefficient %d is zero or repeated", i)
			seen[v] = true
		}
		c.Check(seq(w.Coeff(n), bi(0)), "RandomWithConstant", "too many coefficients")
	}
	c.Ev(n, sd, k)
}

// ---------- C09 ----------

func evalValue(c *C, idx []NI) *Int {
	switch c.Int(5) {
	case 0:
		return bi(0)
	case 1:
		return X(idx[c.Int(len(idx))])
	case 2:
		return bi(int64(c.Int(40)))
	}
	return c.Scalar()
}
func xsOf(idx []NI) []*Int {
	out := make([]*Int, len(idx))
	for i := range idx {
		out[i] = X(idx[i])
	}
	return out
}
func nodeCount(c *C) int {
	n := 1 + c.Int(9)
	if c.Int(25) == 0 {
		n = 20 + c.Int(30)
	}
	return n
}

func c09scalar(c *C) {
	n := sz(c, nodeCount(c), 129)
	idx := distinctIndices(c, n)
	v := evalValue(c, idx)
	f := coeffList(c, n)
	keep := append([]NI{}, idx...)
	lv := S(v)
	lag, err := poly.Lagrange.AtValue(lv, idx)
	if err != nil {
		c.Fail("AtValue", "distinct indices %v at %x refused: %v", idx, v, err)
	}
	c.Check(seq(lv, v), "AtValue-operand", "AtValue changed its value")
	for i := range idx {
		c.Check(idx[i] == keep[i], "AtValue-operand", "AtValue changed its indices")
	}
	want := ref.LagrangeAt(v, xsOf(idx))
	got := lag.Coefficients()
	c.Check(len(got) == n, "AtValue", "%d coefficients for %d nodes", len(got), n)
	for i := range want {
		c.Check(seq(got[i], want[i]), "AtValue", "coefficient %d for nodes %v at %x = %x want %x", i, idx, v, sv(got[i]), want[i])
	}
	ys := make([]*Int, n)
	for i := range ys {
		ys[i] = ref.Eval(f, X(idx[i]))
	}
	ly := Ss(ys)
	for rep := 0; rep < 2; rep++ {
		r, err := lag.InterpolateScalar(ly)
		c.Check(err == nil && seq(r, ref.Eval(f, v)), "InterpolateScalar", "f(%x) from nodes %v: got %v (%v)", v, idx, r, err)
	}
	for i := range ly {
		c.Check(seq(ly[i], ys[i]), "InterpolateScalar-operand", "samples changed")
	}
	if v.Sign() == 0 {
		c.Obs("value zero", 1)
	}
	z, err := poly.Lagrange.AtZero(K, idx)
	if err != nil {
		c.Fail("AtZero", "distinct indices %v refused: %v", idx, err)
	}
	r, err := z.InterpolateScalar(ly)
	c.Check(err == nil && seq(r, at(f, 0)), "AtZero", "f(0) from nodes %v wrong", idx)
	z2, _ := poly.Lagrange.AtValue(S(bi(0)), idx)
	c.Check(z.Equal(z2) == 1 && z2.Equal(z) == 1, "Equal", "equal coefficients compare unequal")
	n2, err := poly.Lagrange.New(Ss(want))
	c.Check(err == nil && n2.Equal(lag) == 1 && lag.Equal(n2) == 1, "New", "coefficients built from their values are not Equal")
	mod := append([]*Int{}, want...)
	k := c.Int(n)
	mod[k] = ref.Add(mod[k], bi(1))
	n3, _ := poly.Lagrange.New(Ss(mod))
	c.Check(n3.Equal(lag) == 0 && lag.Equal(n3) == 0, "Equal", "different coefficients compare equal")
	n4, _ := poly.Lagrange.New(Ss(append(append([]*Int{}, want...), bi(0))))
	c.Check(n4.Equal(lag) == 0 && lag.Equal(n4) == 0, "Equal", "coefficient lists of different length compare equal")
	c.Ev(fmt.Sprint(idx), v, key(f))
	c.Note("nodes %v value %x", idx, v)
}

func c09point(c *C) {
	n := sz(c, 1+c.Int(7), 65)
	idx := distinctIndices(c, n)
	v := evalValue(c, idx)
	f := coeffList(c, n)
	base := c.Point()
	lag, err := poly.Lagrange.AtValue(S(v), idx)
	c.Check(err == nil, "AtValue", "%v", err)
	ps := make([]Pt, n)
	lp := make([]curve.EccPoint, n)
	for i := range ps {
		ps[i] = base.Mul(ref.Eval(f, X(idx[i])))
		lp[i] = PR(c, ps[i])
	}
	r, err := lag.InterpolatePoint(lp)
	want := base.Mul(ref.Eval(f, v))
	c.Check(err == nil && peq(r, want), "InterpolatePoint", "f(%x)*P from nodes %v wrong (%v)", v, idx, err)
	for i := range lp {
		c.Check(peq(lp[i], ps[i]), "InterpolatePoint-operand", "samples changed")
	}
	c.Ev(fmt.Sprint(idx), v, key(f), base)
}

func c09refuse(c *C) {
	n := 1 + c.Int(9)
	idx := distinctIndices(c, n)
	v := evalValue(c, idx)
	lag, err := poly.Lagrange.AtValue(S(v), idx)
	c.Check(err == nil, "AtValue", "%v", err)
	for _, m := range []int{0, n - 1, n + 1, 2 * n} {
		if m == n || m < 0 {
			continue
		}
		_, e1 := lag.InterpolateScalar(Ss(randPoly(c, m)))
		ps := make([]curve.EccPoint, m)
		for i := range ps {
			ps[i] = P(ref.G)
		}
		_, e2 := lag.InterpolatePoint(ps)
		c.Check(e1 != nil && e2 != nil, "length", "%d samples for %d nodes accepted", m, n)
		c.Ev("len", n, m)
	}
	_, e1 := poly.Lagrange.AtValue(S(v), nil)
	_, e2 := poly.Lagrange.AtZero(K, []NI{})
	_, e3 := poly.Lagrange.New(nil)
	_, e4 := poly.Lagrange.New([]curve.EccScalar{})
	c.Check(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "empty", "empty node or coefficient list accepted")
	i, j := c.Int(n), c.Int(n+1)
	dup := append(append(append([]NI{}, idx[:j]...), idx[i]), idx[j:]...)
	_, e1 = poly.Lagrange.AtValue(S(v), dup)
	_, e2 = poly.Lagrange.AtZero(K, dup)
	c.Check(e1 != nil && e2 != nil, "duplicate", "repeated indices %v accepted", dup)
	c.Ev("dup", fmt.Sprint(dup), v)
}

// ---------- C10 ----------

type cm struct { // a commitment with the polynomials it commits to
	kind poly.PolynomialCommitmentType
	a, b []*Int
	num  int
	lib  poly.PolynomialCommitment
}

func (m *cm) point(i int) Pt {
	if m.kind == poly.Simple {
		return ref.MulG(at(m.a, i))
	}
	return ref.Pedersen(at(m.a, i), at(m.b, i))
}
func (m *cm) opening(i NI) poly.CommitmentOpening {
	return mkOpening(m.kind, ref.Eval(m.a, X(i)), ref.Eval(m.b, X(i)))
}
func mkOpening(k poly.PolynomialCommitmentType, v, w *Int) poly.CommitmentOpening {
	if k == poly.Simple {
		return poly.SimpleCommitmentOpening{S(v)}
	}
	return poly.PedersenCommitmentOpening{S(v), S(w)}
}
func createCM(kind poly.PolynomialCommitmentType, a, b []*Int, num int) (poly.PolynomialCommitment, error) {
	if kind == poly.Simple {
		m, err := poly.SimpleCM.Create(mkPoly(a), num)
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	m, err := poly.PedersenCM.Create(mkPoly(a), mkPoly(b), num)
	if err != nil {
		return nil, err
	}
	return m, nil
}
func kindOf(c *C) poly.PolynomialCommitmentType {
	return []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen}[c.Int(2)]
}
func genCM(c *C, max int) *cm {
	m := &cm{kind: kindOf(c)}
	m.num = sz(c, 1+c.Int(max), 65)
	m.a, m.b = coeffList(c, m.num), coeffList(c, m.num)
	l, err := createCM(m.kind, m.a, m.b, m.num)
	if err != nil {
		c.Fail("Create", "commitment to polynomials of degree %d/%d with %d points refused: %v", degreeOf(m.a), degreeOf(m.b), m.num, err)
	}
	m.lib = l
	return m
}

func c10create(c *C) {
	kind := kindOf(c)
	num := sz(c, 1+c.Int(7), 129)
	a, b := coeffList(c, num+3), coeffList(c, num+3)
	if c.Bool() {
		a, b = coeffList(c, num), coeffList(c, num)
	}
	ok := degreeOf(a) < num && (kind == poly.Simple || degreeOf(b) < num)
	l, err := createCM(kind, a, b, num)
	if !ok {
		c.Check(err != nil, "Create-degree", "polynomial of degree %d/%d committed with only %d points (%s)", degreeOf(a), degreeOf(b), num, key(a))
		c.Obs("over-degree refused", 1)
		c.Ev("refuse", int(kind), key(a), key(b), num)
		return
	}
	if err != nil {
		c.Fail("Create", "commitment to polynomials of degree %d/%d with %d points refused: %v", degreeOf(a), degreeOf(b), num, err)
	}
	m := &cm{kind, a, b, num, l}
	c.Check(l.Len() == num && len(l.Points()) == num, "Create", "%d points, want %d", l.Len(), num)
	stable := []byte{'S', 1}
	if kind == poly.Pedersen {
		stable[0] = 'P'
	}
	for i := 0; i < num; i++ {
		w := m.point(i)
		c.Check(peq(l.Points()[i], w), "Create", "point %d is %x want %x", i, pv(l.Points()[i]).Compressed(), w.Compressed())
		stable = append(stable, w.Compressed()...)
	}
	c.Check(peq(l.ConstantTerm(), m.point(0)), "ConstantTerm", "wrong constant term")
	c.Check(bytes.Equal(l.StableRepresentation(), stable), "StableRepresentation", "got %x want %x", sha(l.StableRepresentation(), 80), sha(stable, 80))
	c.Check(l.Type() == kind && l.CurveType() == K, "Type", "wrong kind %d", l.Type())
	for _, k := range []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen, 0, 3} {
		c.Check((l.VerifyIs(k, K) == nil) == (k == kind), "VerifyIs", "VerifyIs(%d) on kind %d", k, kind)
	}
	c.Check(l.VerifyIs(kind, curve.EccCurveType(2)) != nil, "VerifyIs", "VerifyIs accepts another curve")
	// the returned constant term is a copy
	t := l.ConstantTerm()
	t.AddPoints(t, P(ref.G))
	c.Check(peq(l.ConstantTerm(), m.point(0)), "ConstantTerm", "changing the returned constant term changes the commitment")
	cl := l.Clone()
	c.Check(cl.Equal(l) == 1 && l.Equal(cl) == 1 && cl.Type() == kind, "Clone", "clone differs")
	p0 := cl.Points()[0]
	p0.AddPoints(p0, P(ref.G))
	c.Check(peq(l.Points()[0], m.point(0)), "Clone", "changing a clone changes the original")
	for j := 0; j < 2; j++ {
		i := NI(c.WideIndex())
		w := m.kindPoint(ref.Eval(a, X(i)), ref.Eval(b, X(i)))
		c.Check(peq(l.EvaluateAt(i), w), "EvaluateAt", "evaluation at index %d wrong", i)
		c.Ev("eval", int(kind), key(a), key(b), int(i))
	}
	c.Ev("create", int(kind), key(a), key(b), num)
	c.Note("kind %d num %d a=%s", kind, num, key(a))
}
func (m *cm) kindPoint(v, w *Int) Pt {
	if m.kind == poly.Simple {
		return ref.MulG(v)
	}
	return ref.Pedersen(v, w)
}

// wrap commitments as the dealing and transcript types that carry them.
func wrappers(l poly.PolynomialCommitment) []poly.PolynomialCommitment {
	return []poly.PolynomialCommitment{l, &dealings.InterpolationCommitment{PolynomialCommitment: l}, &dealings.SummationCommitment{PolynomialCommitment: l}}
}

func c10opening(c *C) {
	m := genCM(c, 5)
	i := NI(c.WideIndex())
	v, w := ref.Eval(m.a, X(i)), ref.Eval(m.b, X(i))
	l := m.lib
	if c.Int(3) == 0 {
		l = wrappers(l)[1+c.Int(2)]
	}
	chk := func(what string, idx NI, o poly.CommitmentOpening, want bool) {
		var got bool
		var ro poly.CommitmentOpening
		var err error
		c.NoPanic("CheckOpening-crash", what, func() {
			got = l.CheckOpening(idx, o)
			ro, err = l.ReturnOpeningIfConsistent(idx, o)
		})
		c.Check(got == want, "CheckOpening", "%s at index %d on kind %d: %v want %v", what, idx, m.kind, got, want)
		c.Check((err == nil) == want, "ReturnOpeningIfConsistent", "%s at index %d on kind %d: error %v, want accept=%v", what, idx, m.kind, err, want)
		if want {
			gv, gw, ok := openingValues(ro)
			c.Check(ok && gv.Cmp(v) == 0 && (m.kind == poly.Simple || gw.Cmp(w) == 0), "ReturnOpeningIfConsistent", "%s: returned another opening", what)
		} else {
			c.Check(ro == nil, "ReturnOpeningIfConsistent", "%s: rejected but returned an opening", what)
		}
		c.Ev(what, int(m.kind), key(m.a), key(m.b), int(idx))
		c.Obs("checked: "+what, 1)
	}
	chk("correct opening", i, mkOpening(m.kind, v, w), true)
	d := []*Int{bi(1), ref.Neg(bi(1)), c.RandScalar()}[c.Int(3)]
	chk("value changed", i, mkOpening(m.kind, ref.Add(v, d), w), false)
	for _, u := range units {
		wu := w
		if m.kind == poly.Pedersen {
			wu = ref.Mul(w, u.f)
		}
		if v.Sign() != 0 || (m.kind == poly.Pedersen && w.Sign() != 0) {
			chk("opening "+u.name, i, mkOpening(m.kind, ref.Mul(v, u.f), wu), false)
		}
		if v.Sign() != 0 {
			chk("value "+u.name, i, mkOpening(m.kind, ref.Mul(v, u.f), w), false)
		}
	}
	if m.kind == poly.Pedersen {
		chk("mask changed", i, mkOpening(m.kind, v, ref.Add(w, d)), false)
		if v.Cmp(w) != 0 {
			chk("value and mask swapped", i, mkOpening(m.kind, w, v), false)
		}
		chk("value and mask shifted oppositely", i, mkOpening(m.kind, ref.Add(v, d), ref.Sub(w, d)), false)
	}
	other := poly.Simple + poly.Pedersen - m.kind
	chk("other kind", i, mkOpening(other, v, w), false)
	j := NI(int(i) + 1)
	if ref.Eval(m.a, X(j)).Cmp(v) != 0 || (m.kind == poly.Pedersen && ref.Eval(m.b, X(j)).Cmp(w) != 0) {
		chk("next index", j, mkOpening(m.kind, v, w), false)
	}
	// whole-kind robustness: nil and incomplete openings never crash, never pass
	chk("nil opening", i, nil, false)
	chk("empty simple", i, poly.SimpleCommitmentOpening{}, false)
	chk("empty pedersen", i, poly.PedersenCommitmentOpening{}, false)
	chk("half pedersen", i, poly.PedersenCommitmentOpening{S(v), nil}, false)
	chk("nil simple pointer", i, (*poly.SimpleCommitmentOpening)(nil), false)
	chk("nil pedersen pointer", i, (*poly.PedersenCommitmentOpening)(nil), false)
	// openings as the decoder and the byte conversion return them
	var po, pbad poly.CommitmentOpening
	if m.kind == poly.Simple {
		po, pbad = &poly.SimpleCommitmentOpening{S(v)}, &poly.SimpleCommitmentOpening{S(ref.Add(v, d))}
	} else {
		po, pbad = &poly.PedersenCommitmentOpening{S(v), S(w)}, &poly.PedersenCommitmentOpening{S(ref.Add(v, d)), S(w)}
	}
	chk("correct opening by pointer", i, po, true)
	chk("wrong opening by pointer", i, pbad, false)
	c.Note("kind %d degree %d index %d", m.kind, degreeOf(m.a), i)
}

func openingValues(o poly.CommitmentOpening) (v, w *Int, ok bool) {
	switch x := o.(type) {
	case poly.SimpleCommitmentOpening:
		return sv(x[0]), nil, true
	case *poly.SimpleCommitmentOpening:
		return sv(x[0]), nil, true
	case poly.PedersenCommitmentOpening:
		return sv(x[0]), sv(x[1]), true
	case *poly.PedersenCommitmentOpening:
		return sv(x[0]), sv(x[1]), true
	}
	return nil, nil, false
}
func openingKind(o poly.CommitmentOpening) poly.PolynomialCommitmentType {
	switch o.(type) {
	case poly.SimpleCommitmentOpening, *poly.SimpleCommitmentOpening:
		return poly.Simple
	case poly.PedersenCommitmentOpening, *poly.PedersenCommitmentOpening:
		return poly.Pedersen
	}
	return 0
}

func newCM(kind poly.PolynomialCommitmentType, ps []curve.EccPoint) poly.PolynomialCommitment {
	if kind == poly.Simple {
		return poly.SimpleCM.New(ps)
	}
	return poly.PedersenCM.New(ps)
}

func c10equal(c *C) {
	n := sz(c, 1+c.Int(6), 300)
	kind := kindOf(c)
	pts := make([]Pt, n)
	for i := range pts {
		pts[i] = c.Point()
	}
	mk := func(k poly.PolynomialCommitmentType, ps []Pt) poly.PolynomialCommitment {
		l := make([]curve.EccPoint, len(ps))
		for i := range ps {
			l[i] = PR(c, ps[i])
		}
		return newCM(k, l)
	}
	base := mk(kind, pts)
	test := func(what string, o poly.PolynomialCommitment, want int) {
		for x, a := range wrappers(base) {
			for y, b := range wrappers(o) {
				c.Check(a.Equal(b) == want && b.Equal(a) == want, "Equal", "%s (kind %d, %d points, wrappers %d/%d): %d/%d want %d", what, kind, n, x, y, a.Equal(b), b.Equal(a), want)
			}
		}
		c.Ev(what, int(kind), fmt.Sprint(insp.Canon(base)))
		c.Obs("compared: "+what, 1)
	}
	test("same", mk(kind, pts), 1)
	test("other kind, same points", mk(poly.Simple+poly.Pedersen-kind, pts), 0)
	d := append([]Pt{}, pts...)
	i := c.Int(n)
	d[i] = d[i].Add(ref.MulG(c.RandScalar()))
	test("one point changed", mk(kind, d), 0)
	if !pts[i].Inf {
		d[i] = pts[i].Neg()
		test("one point negated", mk(kind, d), 0)
	}
	test("one point more", mk(kind, append(append([]Pt{}, pts...), c.Point())), 0)
	if n > 1 {
		test("one point fewer", mk(kind, pts[:n-1]), 0)
		j := (i + 1) % n
		if !pts[i].Equal(pts[j]) {
			d = append([]Pt{}, pts...)
			d[i], d[j] = d[j], d[i]
			test("two points swapped", mk(kind, d), 0)
		}
	}
}

// ---------- C11 ----------

func ptrOpening(k poly.PolynomialCommitmentType, v, w *Int) poly.CommitmentOpening {
	if k == poly.Simple {
		return &poly.SimpleCommitmentOpening{S(v)}
	}
	return &poly.PedersenCommitmentOpening{S(v), S(w)}
}

func sameOpening(a, b poly.CommitmentOpening) bool {
	if openingKind(a) == 0 || openingKind(a) != openingKind(b) {
		return false
	}
	v, w, ok1 := openingValues(a)
	x, y, ok2 := openingValues(b)
	return ok1 && ok2 && v.Cmp(x) == 0 && (w == nil || w.Cmp(y) == 0)
}

func c11opening(c *C) {
	m := genCM(c, 4)
	i := NI(c.WideIndex())
	v, w := ref.Eval(m.a, X(i)), ref.Eval(m.b, X(i))
	o := mkOpening(m.kind, v, w)
	if c.Bool() {
		o = ptrOpening(m.kind, v, w)
	}
	b, err := o.Serialize()
	c.Check(err == nil && len(b) > 0, "Serialize", "opening refused: %v", err)
	var d poly.CommitmentOpening
	c.NoPanic("Deserialize", "own serialization", func() { d, err = poly.Commitment.Deserialize(b) })
	if err != nil {
		c.Fail("Deserialize", "own serialization of an opening of kind %d refused: %v", m.kind, err)
	}
	c.Check(sameOpening(o, d), "Deserialize", "opening of kind %d (%x,%x) came back as %s", m.kind, v, w, insp.Canon(d))
	b2, err := d.Serialize()
	c.Check(err == nil && bytes.Equal(b, b2), "Deserialize", "a decoded opening serializes differently")
	c.Check(m.lib.CheckOpening(i, d), "CheckOpening", "the decoded correct opening is rejected")
	c.Check(!m.lib.CheckOpening(i, func() poly.CommitmentOpening {
		b, _ := mkOpening(m.kind, ref.Add(v, bi(1)), w).Serialize()
		d, _ := poly.Commitment.Deserialize(b)
		return d
	}()), "CheckOpening", "a decoded wrong opening is accepted")
	// openings with different kind or content never share an encoding
	all := []poly.CommitmentOpening{mkOpening(poly.Simple, v, w), mkOpening(poly.Pedersen, v, w), mkOpening(poly.Pedersen, v, bi(0)), mkOpening(poly.Simple, bi(0), w),
		mkOpening(poly.Pedersen, w, v), mkOpening(poly.Simple, w, v), mkOpening(poly.Pedersen, bi(0), w), mkOpening(poly.Simple, ref.Neg(v), w)}
	enc := map[string]poly.CommitmentOpening{}
	for _, a := range all {
		b, err := a.Serialize()
		c.Check(err == nil, "Serialize", "%v", err)
		if p, ok := enc[string(b)]; ok {
			c.Check(sameOpening(p, a), "collision", "two different openings serialize to %x", b)
		}
		enc[string(b)] = a
	}
	c.Ev(b)
	c.Obs(fmt.Sprintf("openings of kind %d round-tripped", m.kind), 1)
	c.Note("kind %d opening (%x,%x) bytes %x", m.kind, v, w, sha(b, 40))
}

func c11commitment(c *C) {
	if deserializeCommitment == nil {
		c.Obs("commitment decoder not reachable", 1)
	}
	kind := kindOf(c)
	n := sz(c, 1+c.Int(7), 300)
	pts := make([]Pt, n)
	lp := make([]curve.EccPoint, n)
	for i := range pts {
		pts[i] = c.Point()
		if pts[i].Inf {
			c.Obs("infinity among the points", 1)
		}
		lp[i] = PR(c, pts[i])
	}
	l := newCM(kind, lp)
	var b []byte
	var err error
	c.NoPanic("Serialize", "commitment", func() { b, err = l.Serialize() })
	c.Check(err == nil && len(b) > 0, "Serialize", "commitment of kind %d refused: %v", kind, err)
	for _, w := range wrappers(l)[1:] {
		bw, err := w.(interface{ Serialize() ([]byte, error) }).Serialize()
		c.Check(err == nil && bytes.Equal(b, bw), "Serialize", "transcript commitment serializes differently from its commitment")
	}
	// canonical: the encoding depends on the points, not their representation
	lp2 := make([]curve.EccPoint, n)
	for i := range pts {
		lp2[i] = PZ(pts[i], c.RandScalar())
	}
	b2, err := newCM(kind, lp2).Serialize()
	c.Check(err == nil && bytes.Equal(b, b2), "Serialize", "equal commitments serialize differently")
	b3, _ := newCM(poly.Simple+poly.Pedersen-kind, lp).Serialize()
	c.Check(!bytes.Equal(b, b3), "collision", "Simple and Pedersen commitments share a serialization")
	b4, _ := newCM(kind, append(append([]curve.EccPoint{}, lp...), P(ref.Infinity()))).Serialize()
	c.Check(!bytes.Equal(b, b4), "collision", "commitments of different length share a serialization")
	d := append([]curve.EccPoint{}, lp...)
	i := c.Int(n)
	d[i] = P(pts[i].Add(ref.MulG(c.RandScalar())))
	b5, _ := newCM(kind, d).Serialize()
	c.Check(!bytes.Equal(b, b5), "collision", "commitments differing in point %d share a serialization", i)
	if deserializeCommitment != nil {
		var g poly.PolynomialCommitment
		c.NoPanic("Deserialize", "own serialization", func() { g, err = deserializeCommitment(b) })
		if err != nil {
			c.Fail("Deserialize", "own serialization of a commitment of kind %d refused: %v", kind, err)
		}
		c.Check(g.Type() == kind && g.Len() == n && g.CurveType() == K, "Deserialize", "kind %d length %d came back as kind %d length %d", kind, n, g.Type(), g.Len())
		for j := range pts {
			c.Check(peq(g.Points()[j], pts[j]), "Deserialize", "point %d differs", j)
		}
		c.Check(g.Equal(l) == 1 && l.Equal(g) == 1, "Deserialize", "decoded commitment is not Equal")
		c.Check(bytes.Equal(g.StableRepresentation(), l.StableRepresentation()), "Deserialize", "stable representations differ")
		x := NI(c.WideIndex())
		want := ref.EvalPts(pts, X(x))
		c.Check(peq(g.EvaluateAt(x), want) && peq(l.EvaluateAt(x), want), "EvaluateAt", "evaluation at %d after decoding differs", x)
		c.Check(peq(g.ConstantTerm(), pts[0]), "ConstantTerm", "constant term differs")
		c.Check(g.VerifyIs(kind, K) == nil && g.VerifyIs(poly.Simple+poly.Pedersen-kind, K) != nil, "VerifyIs", "decoded commitment has the wrong kind")
		b6, err := g.Serialize()
		c.Check(err == nil && bytes.Equal(b, b6), "Deserialize", "decoded commitment serializes differently")
		// openings decide the same way on the decoded commitment
		m := genCM(c, 4)
		mb, _ := m.lib.Serialize()
		mg, err := deserializeCommitment(mb)
		c.Check(err == nil, "Deserialize", "%v", err)
		c.Check(mg.CheckOpening(x, m.opening(x)), "CheckOpening", "decoded commitment rejects its opening")
		c.Check(!mg.CheckOpening(x, mkOpening(m.kind, ref.Add(ref.Eval(m.a, X(x)), bi(1)), ref.Eval(m.b, X(x)))), "CheckOpening", "decoded commitment accepts a wrong opening")
		c.Check(!mg.CheckOpening(x, mkOpening(poly.Simple+poly.Pedersen-m.kind, ref.Eval(m.a, X(x)), ref.Eval(m.b, X(x)))), "CheckOpening", "decoded commitment accepts an opening of the other kind")
	}
	c.Ev(b)
	c.Obs(fmt.Sprintf("commitments of kind %d", kind), 1)
	c.Note("kind %d with %d points, bytes %x", kind, n, sha(b, 60))
}

// decodeAny decodes with one of the two decoders; canon is the value decoded
// and again its re-encoding.
func decodeAny(c *C, opening bool, b []byte) (canon string, again []byte, err error) {
	var x interface{ Serialize() ([]byte, error) }
	c.NoPanic("Deserialize-crash", fmt.Sprintf("decoding %x", sha(b, 300)), func() {
		if opening {
			var o poly.CommitmentOpening
			o, err = poly.Commitment.Deserialize(b)
			if err == nil {
				x = o
			}
		} else {
			var o poly.PolynomialCommitment
			o, err = deserializeCommitment(b)
			if err == nil {
				x = o
			}
		}
		if err != nil {
			return
		}
		if x == nil {
			c.Fail("Deserialize-nil", "decoding %x returns neither a value nor an error", sha(b, 300))
		}
		again, _ = x.Serialize()
	})
	if err != nil {
		return "", nil, err
	}
	return insp.Canon(x), again, nil
}

func c11corrupt(c *C) {
	opening := c.Bool() || deserializeCommitment == nil
	kind := kindOf(c)
	var b []byte
	var n int
	if opening {
		n = 1
		if kind == poly.Pedersen {
			n = 2
		}
		b, _ = mkOpening(kind, c.Scalar(), c.Scalar()).Serialize()
	} else {
		n = sz(c, 1+c.Int(4), 300)
		lp := make([]curve.EccPoint, n)
		for i := range lp {
			lp[i] = P(c.Point())
		}
		b, _ = newCM(kind, lp).Serialize()
	}
	orig, _, err := decodeAny(c, opening, b)
	c.Check(err == nil, "Deserialize", "own serialization refused: %v", err)
	// truncations and extensions
	for _, k := range []int{0, 1, len(b) - 1, c.Int(len(b)), c.Int(len(b))} {
		_, _, err := decodeAny(c, opening, b[:k])
		c.Check(err != nil, "truncated", "first %d of %d bytes accepted: %x", k, len(b), b[:k])
		c.Ev("trunc", b[:k])
	}
	_, _, err = decodeAny(c, opening, nil)
	c.Check(err != nil, "truncated", "nil accepted")
	tails := [][]byte{c.Bytes(1 + c.Int(3)), c.Bytes(64), b, b[:1], b[:len(b)-1]}
	for _, v := range []byte{0, 0xff, 0xf6, 0xf7, '\n', ' ', 1, 0x80, 0x40, 0x60, 0xa0, c.Bytes(1)[0]} { // among them null, break and empty items
		for _, k := range []int{1, 2, 3, 4, 8, 32} {
			tails = append(tails, bytes.Repeat([]byte{v}, k))
		}
	}
	for v := 0; v < 256; v++ {
		if c.I%8 == v%8 {
			tails = append(tails, []byte{byte(v)})
		}
	}
	for _, tail := range tails {
		_, _, err = decodeAny(c, opening, append(append([]byte{}, b...), tail...))
		c.Check(err != nil, "extended", "an encoding followed by %x was accepted", sha(tail, 40))
		c.Ev("ext", sha(tail, 40), b)
	}
	// byte changes: refused, or the changed object itself is what comes back
	for i := 0; i < 20; i++ {
		m := append([]byte{}, b...)
		p := c.Int(len(m))
		if c.Bool() {
			p = c.Int(min(len(m), 50))
		}
		if c.Bool() {
			m[p] ^= 1 << uint(c.Int(8))
		} else {
			m[p] = c.Bytes(1)[0]
		}
		got, again, err := decodeAny(c, opening, m)
		c.Ev("byte", m)
		if err != nil {
			c.Obs("byte change refused", 1)
			continue
		}
		c.Obs("byte change gives another valid encoding", 1)
		c.Check(bytes.Equal(again, m) || got == orig, "corrupted", "%x accepted but the value decoded encodes to %x (original %x)", m, again, b)
	}
	// structural changes on the generic CBOR tree
	var tree map[string]interface{}
	if cbor.Unmarshal(b, &tree) != nil {
		c.Obs("encoding is not a CBOR map", 1)
		return
	}
	listKey := ""
	for k, v := range tree {
		if _, ok := v.([]interface{}); ok {
			listKey = k
		}
	}
	reject := func(what string, t map[string]interface{}) {
		m, err := cbor.Marshal(t)
		if err != nil {
			panic(err)
		}
		got, _, err := decodeAny(c, opening, m)
		c.Check(err != nil, "structure", "%s accepted (opening=%v kind %d) as %s", what, opening, kind, got)
		c.Ev(what, m)
		c.Obs("refused: "+what, 1)
	}
	with := func(k string, v interface{}) map[string]interface{} {
		t := map[string]interface{}{}
		for a, b := range tree {
			t[a] = b
		}
		if v == "absent" {
			delete(t, k)
		} else {
			t[k] = v
		}
		return t
	}
	for k, v := range tree {
		reject("missing entry "+k, with(k, "absent"))
		reject("null entry "+k, with(k, nil))
		reject("text entry "+k, with(k, "x"))
		if _, ok := v.(uint64); ok {
			for _, bad := range []interface{}{0, 3, 255, -1, uint64(1) << 40} {
				reject(fmt.Sprintf("%s=%v", k, bad), with(k, bad))
			}
		}
	}
	if listKey != "" {
		l := tree[listKey].([]interface{})
		reject("empty list", with(listKey, []interface{}{}))
		i := c.Int(len(l))
		nl := append([]interface{}{}, l...)
		nl[i] = nil
		reject("null element", with(listKey, nl))
		nl = append([]interface{}{}, l...)
		nl[i] = []byte{}
		reject("empty element", with(listKey, nl))
		nl[i] = 7
		reject("integer element", with(listKey, nl))
		if e, ok := l[i].([]byte); ok {
			nl[i] = e[:len(e)-1]
			reject("short element", with(listKey, nl))
			nl[i] = append(append([]byte{}, e...), 0)
			reject("long element", with(listKey, nl))
			nl[i] = append([]byte{e[0] + 1}, e[1:]...)
			reject("element of another curve", with(listKey, nl))
			nl[i] = append([]byte{e[0]}, bytes.Repeat([]byte{0xff}, len(e)-1)...)
			reject("element out of range", with(listKey, nl))
		}
		if opening {
			for _, k := range []int{1, 2, 3, 5} {
				if k == n {
					continue
				}
				nl = nil
				for len(nl) < k {
					nl = append(nl, l[len(nl)%len(l)])
				}
				reject("wrong number of scalars", with(listKey, nl))
			}
		}
	}
}

func c11bytes(c *C) {
	s, p0, p1 := c.Scalar(), c.Scalar(), c.Scalar()
	so, po := mkOpening(poly.Simple, s, nil), mkOpening(poly.Pedersen, p0, p1)
	if c.Bool() {
		so, po = ptrOpening(poly.Simple, s, nil), ptrOpening(poly.Pedersen, p0, p1)
	}
	var sb, pb poly.CommitmentOpeningBytes
	c.NoPanic("ToCommitmentOpeningBytes", "openings", func() { sb, pb = so.ToCommitmentOpeningBytes(), po.ToCommitmentOpeningBytes() })
	c.NoPanic("ToCommitmentOpening", "opening bytes", func() {
		for i := 0; i < 2; i++ {
			c.Check(sameOpening(sb.ToCommitmentOpening(), so), "ToCommitmentOpening", "simple opening %x does not survive", s)
			c.Check(sameOpening(pb.ToCommitmentOpening(), po), "ToCommitmentOpening", "pedersen opening does not survive")
		}
	})
	n := 1 + c.Int(3)
	pks := make([]*mega.MEGaPublicKey, n)
	sks := make([]*Int, n)
	for i := range pks {
		sks[i] = c.RandScalar()
		pks[i] = mega.NewMEGaPublicKey(P(ref.MulG(sks[i])))
	}
	sd := c.Bytes(32)
	t := 1 + c.Int(n)
	for _, k := range []struct {
		name     string
		a, b     poly.CommitmentOpeningBytes
		share    dealings.SecretShares
		constant Pt
		pedersen bool
	}{
		{"reshare of unmasked", sb, nil, &dealings.ReshareOfUnmaskedSecret{S1: S(s)}, ref.MulG(s), false},
		{"reshare of masked", pb, nil, &dealings.ReshareOfMaskedSecret{S1: S(p0), S2: S(p1)}, ref.MulG(p0), false},
		{"product", sb, pb, &dealings.UnmaskedTimesMaskedSecret{Left: S(s), Right: [2]curve.EccScalar{S(p0), S(p1)}}, Pt{}, true},
	} {
		var sh dealings.SecretShares
		var err error
		c.NoPanic("Secret.From", k.name, func() { sh, err = dealings.Secret.From(k.a, k.b) })
		c.Check(err == nil, "Secret.From", "%s refused: %v", k.name, err)
		c.Check(insp.Canon(sh) == insp.Canon(k.share), "Secret.From", "%s: share is %s want %s", k.name, insp.Canon(sh), insp.Canon(k.share))
		d1, e1 := dealings.NewIDkgDealingInternal(sh, K, seed.FromBytes(sd), t, pks, 0, nil)
		d2, e2 := dealings.NewIDkgDealingInternal(k.share, K, seed.FromBytes(sd), t, pks, 0, nil)
		c.Check(e1 == nil && e2 == nil && d1.Ciphertext != nil && d1.Commitment != nil, "Secret.From", "%s: share not usable to create a dealing (%v)", k.name, e1)
		c.Check(insp.Canon(d1) == insp.Canon(d2), "Secret.From", "%s: dealing differs from the one made with the opened values", k.name)
		if !k.pedersen {
			c.Check(peq(d1.Commitment.ConstantTerm(), k.constant), "Secret.From", "%s: dealing does not commit to the opened value", k.name)
		}
		c.Ev(k.name, s, p0, p1)
		c.Obs("dealt from bytes: "+k.name, 1)
	}
	for _, bad := range [][2]poly.CommitmentOpeningBytes{{sb, sb}, {pb, pb}, {pb, sb}, {nil, nil}, {nil, sb}, {nil, pb}} {
		var err error
		c.NoPanic("Secret.From-crash", "inconsistent combination", func() { _, err = dealings.Secret.From(bad[0], bad[1]) })
		c.Check(err != nil, "Secret.From-refuse", "inconsistent combination %T/%T accepted", bad[0], bad[1])
		c.Ev("refuse", fmt.Sprintf("%T%T", bad[0], bad[1]))
	}
}
