package main

import (
	"bytes"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/fxamacker/cbor/v2"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C01", MinEval: 1000,
		Rule: "one evaluation compares one scalar operation (all receiver/operand aliasings) with math/big arithmetic mod n; distinct by operation and operand values",
		Gens: []core.Gen{
			{Name: "binary", Quick: 4000, Thorough: 300000, Run: c01binary},
			{Name: "unary", Quick: 3000, Thorough: 200000, Run: c01unary},
			{Name: "edges", Quick: len(core.ScalarEdges), Thorough: len(core.ScalarEdges), Run: c01edges},
			{Name: "convert", Quick: 3000, Thorough: 200000, Run: c01convert},
		}})
	core.Register(&core.Prop{ID: "C02", MinEval: 1000,
		Rule: "one evaluation compares one base-field operation (all receiver/operand aliasings) with math/big arithmetic mod p; distinct by operation and operand values",
		Gens: []core.Gen{
			{Name: "binary", Quick: 3000, Thorough: 200000, Run: c02binary},
			{Name: "unary", Quick: 2500, Thorough: 100000, Run: c02unary},
			{Name: "edges", Quick: len(core.FieldEdges), Thorough: len(core.FieldEdges), Run: c02edges},
			{Name: "convert", Quick: 2000, Thorough: 100000, Run: c02convert},
		}})
	core.Register(&core.Prop{ID: "C03", MinEval: 500,
		Rule: "one evaluation compares one point operation (all aliasings, both internal representations) with an independent affine group law; distinct by operation and operands",
		Gens: []core.Gen{
			{Name: "addsub", Quick: 800, Thorough: 30000, Run: c03addsub},
			{Name: "mul", Quick: 500, Thorough: 20000, Run: c03mul},
			{Name: "lincomb", Quick: 400, Thorough: 15000, Run: c03lincomb},
			{Name: "index", Quick: 400, Thorough: 10000, Run: c03index},
			{Name: "equal", Quick: 500, Thorough: 20000, Run: c03equal},
			{Name: "constants", Quick: 1, Thorough: 1, Run: c03constants},
		}})
	core.Register(&core.Prop{ID: "C04", MinEval: 1000,
		Rule: "one evaluation decides acceptance and value of one byte string by one decoder against a model of the canonical encodings; distinct by decoder and string",
		Gens: []core.Gen{
			{Name: "roundtrip", Quick: 600, Thorough: 20000, Run: c04roundtrip},
			{Name: "scalar", Quick: 3000, Thorough: 100000, Run: c04scalar},
			{Name: "point", Quick: 3000, Thorough: 100000, Run: c04point},
			{Name: "cbor", Quick: 1500, Thorough: 50000, Run: c04cbor},
			{Name: "sec1", Quick: 600, Thorough: 20000, Run: c04sec1},
			{Name: "kept", Quick: 80, Thorough: 3000, Run: c04kept},
		}})
	core.Register(&core.Prop{ID: "C05", MinEval: 300,
		Rule: "one evaluation compares one hash output with an independent RFC 9380 implementation (validated against RFC vectors at start-up); distinct by message, separator and length",
		Gens: []core.Gen{
			{Name: "xmd", Quick: 1500, Thorough: 60000, Run: c05xmd},
			{Name: "field", Quick: 600, Thorough: 20000, Run: c05field},
			{Name: "map", Quick: 300, Thorough: 8000, Run: c05map},
			{Name: "curve", Quick: 250, Thorough: 8000, Run: c05curve},
			{Name: "kept", Quick: 80, Thorough: 3000, Run: c05kept},
			{Name: "long-xmd", Quick: 40, Thorough: 1000, Run: c05xmd},
			{Name: "long-curve", Quick: 16, Thorough: 400, Run: c05curve},
		}})
}

// ---------- C01 ----------

type sOp struct {
	name string
	do   func(r, a, b curve.EccScalar) curve.EccScalar
	want func(a, b *Int) *Int
}

var sOps = []sOp{
	{"Add", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Add(a, b) }, ref.Add},
	{"Sub", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Sub(a, b) }, ref.Sub},
	{"Mul", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Mul(a, b) }, ref.Mul},
}

func checkScalarBin(c *C, op sOp, a, b *Int) {
	w := op.want(a, b)
	for mode := 0; mode < 4; mode++ {
		x, y := S(a), S(b)
		var r curve.EccScalar
		switch mode {
		case 0:
			r = curve.Scalar.Zero(K)
		case 1:
			r = x
		case 2:
			r = y
		case 3:
			r = S(c.RandScalar())
		}
		got := op.do(r, x, y)
		c.Check(seq(got, w), op.name, "%s(%x,%x) receiver mode %d = %x, want %x", op.name, a, b, mode, sv(got), w)
		c.Check(seq(r, w), op.name, "%s(%x,%x) receiver mode %d left receiver %x, want %x", op.name, a, b, mode, sv(r), w)
		if mode != 1 {
			c.Check(seq(x, a), op.name+"-operand", "%s changed its left operand %x to %x", op.name, a, sv(x))
		}
		if mode != 2 {
			c.Check(seq(y, b), op.name+"-operand", "%s changed its right operand %x to %x", op.name, b, sv(y))
		}
	}
	if a.Cmp(b) == 0 {
		x := S(a)
		op.do(x, x, x)
		c.Check(seq(x, w), op.name, "%s(x,x) into x for x=%x = %x, want %x", op.name, a, sv(x), w)
		x = S(a)
		r := curve.Scalar.Zero(K)
		op.do(r, x, x)
		c.Check(seq(r, w) && seq(x, a), op.name, "%s(x,x) for x=%x = %x, want %x", op.name, a, sv(r), w)
	}
	c.Ev(op.name, a, b)
}

func checkScalarEqual(c *C, a, b *Int) {
	x, y := S(a), S(b)
	want := 0
	if a.Cmp(b) == 0 {
		want = 1
	}
	c.Check(x.Equal(y) == want && y.Equal(x) == want, "Equal", "Equal(%x,%x) = %d/%d, want %d", a, b, x.Equal(y), y.Equal(x), want)
	c.Ev("Equal", a, b)
}

func c01binary(c *C) {
	a, b := c.Scalar(), c.Scalar()
	switch c.Int(5) {
	case 0:
		b = new(big.Int).Set(a)
	case 1:
		b = ref.Neg(a)
	case 2:
		b = ref.Add(a, bi(int64(c.Int(3)-1)))
	}
	for _, op := range sOps {
		checkScalarBin(c, op, a, b)
	}
	checkScalarEqual(c, a, b)
	// a value reached by computation is equal to the same value decoded
	d := curve.Scalar.Zero(K).Add(S(a), S(b))
	c.Check(d.Equal(S(ref.Add(a, b))) == 1, "Equal", "computed %x+%x not equal to its decoded value", a, b)
	c.Note("a=%x b=%x: add, sub, mul, equal with all aliasings", a, b)
}

func checkScalarUnary(c *C, a *Int) {
	type un struct {
		name string
		do   func(r, a curve.EccScalar) curve.EccScalar
		want *Int
	}
	for _, u := range []un{
		{"Invert", func(r, a curve.EccScalar) curve.EccScalar { return r.Invert(a) }, ref.Inv(a)},
		{"Negate", func(r, a curve.EccScalar) curve.EccScalar { return r.Negate(a) }, ref.Neg(a)},
		{"Assign", func(r, a curve.EccScalar) curve.EccScalar { return r.Assign(a) }, a},
		{"Clone", func(r, a curve.EccScalar) curve.EccScalar { return r.Assign(a.Clone()) }, a},
	} {
		for mode := 0; mode < 3; mode++ {
			x := S(a)
			r := x
			if mode == 1 {
				r = S(c.RandScalar())
			} else if mode == 2 {
				r = curve.Scalar.Zero(K)
			}
			got := u.do(r, x)
			c.Check(seq(got, u.want) && seq(r, u.want), u.name, "%s(%x) mode %d = %x (receiver %x), want %x", u.name, a, mode, sv(got), sv(r), u.want)
			if mode != 0 {
				c.Check(seq(x, a), u.name+"-operand", "%s changed its operand %x to %x", u.name, a, sv(x))
				r.Add(r, S(bi(1)))
				c.Check(seq(x, a), u.name+"-shares", "changing the result of %s(%x) changed the operand", u.name, a)
			}
		}
		c.Ev(u.name, a)
	}
	x := S(a)
	cl := x.Clone()
	x.Add(x, S(bi(1)))
	c.Check(seq(cl, a), "Clone", "changing %x changed its clone", a)
	z := 0
	if a.Sign() == 0 {
		z = 1
	}
	c.Check(S(a).IsZero() == z, "IsZero", "IsZero(%x) = %d", a, S(a).IsZero())
	high := a.Cmp(ref.Half) > 0
	c.Check(S(a).IsHigh() == high, "IsHigh", "IsHigh(%x) = %v, want %v", a, S(a).IsHigh(), high)
	c.Ev("IsHigh", a)
	c.Check(S(a).BigInt().Cmp(a) == 0, "BigInt", "BigInt(%x) = %x", a, S(a).BigInt())
}

func c01unary(c *C) {
	a := c.Scalar()
	checkScalarUnary(c, a)
	c.Note("a=%x: invert, negate, assign, clone, zero, high", a)
}

func c01edges(c *C) {
	a := core.ScalarEdges[c.I]
	checkScalarUnary(c, a)
	for _, b := range core.ScalarEdges {
		for _, op := range sOps {
			w := op.want(a, b)
			g := op.do(curve.Scalar.Zero(K), S(a), S(b))
			c.Check(seq(g, w), op.name, "%s(%x,%x) = %x, want %x", op.name, a, b, sv(g), w)
			c.Ev(op.name, a, b)
		}
		checkScalarEqual(c, a, b)
	}
}

var u64s = []uint64{0, 1, 2, 254, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func c01convert(c *C) {
	u := c.R.Uint64()
	if c.Int(3) == 0 {
		u = u64s[c.Int(len(u64s))]
	}
	w := new(big.Int).SetUint64(u)
	c.Check(seq(curve.Scalar.FromUint64(K, u), w), "FromUint64", "FromUint64(%d) = %x", u, sv(curve.Scalar.FromUint64(K, u)))
	c.Ev("FromUint64", w)
	i := c.WideIndex()
	if c.I < len(core.WideEdges) {
		i = core.WideEdges[c.I]
	}
	g := curve.Scalar.FromNodeIndex(K, NI(i))
	c.Check(seq(g, X(NI(i))), "FromNodeIndex", "FromNodeIndex(%d) = %x, want %x", i, sv(g), X(NI(i)))
	c.Ev("FromNodeIndex", i)
	c.Check(seq(curve.Scalar.Zero(K), bi(0)) && seq(curve.Scalar.One(K), bi(1)), "constants", "Zero or One wrong")
	// wide reduction
	for k := 0; k < 3; k++ {
		n := c.Int(65)
		if k == 0 {
			n = []int{0, 1, 31, 32, 33, 47, 48, 49, 63, 64}[c.Int(10)]
		}
		var b []byte
		switch c.Int(4) {
		case 0:
			b = bytes.Repeat([]byte{0xff}, n)
		case 1: // k*n + small
			m := new(big.Int).Mul(ref.N, new(big.Int).SetBytes(c.Bytes(32)))
			m.Add(m, bi(int64(c.Int(5)-2)))
			if m.Sign() < 0 {
				m.SetInt64(0)
			}
			m.Mod(m, new(big.Int).Lsh(bi(1), uint(8*n)))
			b = m.FillBytes(make([]byte, n))
		default:
			b = c.Bytes(n)
		}
		keep := append([]byte{}, b...)
		want := ref.Mod(new(big.Int).SetBytes(b))
		r, err := curve.Scalar.FromBytesWide(K, b)
		c.Check(err == nil && r != nil, "FromBytesWide", "FromBytesWide(%x) refused: %v", b, err)
		c.Check(seq(r, want), "FromBytesWide", "FromBytesWide(%x) = %x, want %x", b, sv(r), want)
		c.Check(bytes.Equal(b, keep), "FromBytesWide-input", "FromBytesWide changed its input")
		c.Ev("FromBytesWide", b)
	}
	c.Note("u64=%d index=%d and wide reductions", u, i)
}

// ---------- C02 ----------

func F(x *Int) curve.EccFieldElement {
	f, err := curve.Field.FromBytes(K, ref.Bytes32(x))
	if err != nil {
		panic("canonical field element refused")
	}
	return f
}
func fv(f curve.EccFieldElement) *Int { return new(big.Int).SetBytes(f.AsBytes()) }
func feq(f curve.EccFieldElement, v *Int) bool {
	return fv(f).Cmp(v) == 0 && f.BigInt().Cmp(v) == 0
}

type fOp struct {
	name string
	do   func(r, a, b curve.EccFieldElement) curve.EccFieldElement
	want func(a, b *Int) *Int
}

var fOps = []fOp{
	{"Add", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Add(a, b) }, ref.FAdd},
	{"Sub", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Sub(a, b) }, ref.FSub},
	{"Mul", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Mul(a, b) }, ref.FMul},
}

func checkFieldBin(c *C, op fOp, a, b *Int, modes int) {
	w := op.want(a, b)
	for mode := 0; mode < modes; mode++ {
		x, y := F(a), F(b)
		var r curve.EccFieldElement
		switch mode {
		case 0:
			r = curve.Field.Zero(K)
		case 1:
			r = x
		case 2:
			r = y
		case 3:
			r = F(c.Uniform(ref.P))
		}
		got := op.do(r, x, y)
		c.Check(feq(got, w) && feq(r, w), op.name, "%s(%x,%x) mode %d = %x (receiver %x), want %x", op.name, a, b, mode, fv(got), fv(r), w)
		c.Check(mode == 1 || feq(x, a), op.name+"-operand", "%s changed its left operand", op.name)
		c.Check(mode == 2 || feq(y, b), op.name+"-operand", "%s changed its right operand", op.name)
	}
	if a.Cmp(b) == 0 {
		x := F(a)
		op.do(x, x, x)
		c.Check(feq(x, w), op.name, "%s(x,x) into x for %x = %x, want %x", op.name, a, fv(x), w)
	}
	c.Ev(op.name, a, b)
}

func checkFieldPair(c *C, a, b *Int) {
	x, y := F(a), F(b)
	want := 0
	if a.Cmp(b) == 0 {
		want = 1
	}
	c.Check(x.Equal(y) == want, "Equal", "Equal(%x,%x) = %d", a, b, x.Equal(y))
	x.CAssign(y, 0)
	c.Check(feq(x, a), "CAssign", "CAssign(.,0) changed %x to %x", a, fv(x))
	x.CAssign(y, 1)
	c.Check(feq(x, b) && feq(y, b), "CAssign", "CAssign(%x<-%x,1) = %x", a, b, fv(x))
	x.Add(x, curve.Field.One(K))
	c.Check(feq(y, b), "CAssign-shares", "changing the assigned element changed the source %x", b)
	c.Ev("Equal/CAssign", a, b)
}

func c02binary(c *C) {
	a, b := c.Fe(), c.Fe()
	switch c.Int(5) {
	case 0:
		b = new(big.Int).Set(a)
	case 1:
		b = ref.FNeg(a)
	}
	for _, op := range fOps {
		checkFieldBin(c, op, a, b, 4)
	}
	checkFieldPair(c, a, b)
	c.Note("a=%x b=%x", a, b)
}

var pm34 = new(big.Int).Div(new(big.Int).Sub(ref.P, bi(3)), bi(4))

func checkFieldUnary(c *C, a *Int) {
	type un struct {
		name string
		do   func(r, a curve.EccFieldElement) curve.EccFieldElement
		want *Int
	}
	for _, u := range []un{
		{"Square", func(r, a curve.EccFieldElement) curve.EccFieldElement { return r.Square(a) }, ref.FMul(a, a)},
		{"Invert", func(r, a curve.EccFieldElement) curve.EccFieldElement { return r.Invert(a) }, ref.FInv(a)},
		{"Negate", func(r, a curve.EccFieldElement) curve.EccFieldElement { return r.Negate(a) }, ref.FNeg(a)},
		{"Progenitor", func(r, a curve.EccFieldElement) curve.EccFieldElement { return r.Progenitor(a) }, new(big.Int).Exp(a, pm34, ref.P)},
		{"Assign", func(r, a curve.EccFieldElement) curve.EccFieldElement { return r.Assign(a) }, a},
		{"Clone", func(r, a curve.EccFieldElement) curve.EccFieldElement { return r.Assign(a.Clone()) }, a},
	} {
		for mode := 0; mode < 3; mode++ {
			x := F(a)
			r := x
			if mode == 1 {
				r = F(c.Uniform(ref.P))
			} else if mode == 2 {
				r = curve.Field.Zero(K)
			}
			got := u.do(r, x)
			c.Check(feq(got, u.want) && feq(r, u.want), u.name, "%s(%x) mode %d = %x (receiver %x), want %x", u.name, a, mode, fv(got), fv(r), u.want)
			if mode != 0 {
				c.Check(feq(x, a), u.name+"-operand", "%s changed its operand", u.name)
				r.Add(r, curve.Field.One(K))
				c.Check(feq(x, a), u.name+"-shares", "changing the result of %s changed the operand", u.name)
			}
		}
		c.Ev(u.name, a)
	}
	sq := ref.FIsSquare(a) || a.Sign() == 0
	for mode := 0; mode < 3; mode++ {
		x := F(a)
		r := x
		if mode == 1 {
			r = F(c.Uniform(ref.P))
		} else if mode == 2 {
			r = curve.Field.Zero(K)
		}
		got, flag := r.Sqrt(x)
		want := 0
		if sq {
			want = 1
		}
		c.Check(flag == want, "Sqrt", "Sqrt(%x) flag %d, want %d", a, flag, want)
		if sq {
			g := fv(got)
			c.Check(ref.FMul(g, g).Cmp(a) == 0 && feq(r, g), "Sqrt", "Sqrt(%x) mode %d = %x (receiver %x): not a root", a, mode, g, fv(r))
		}
		c.Check(mode == 0 || feq(x, a), "Sqrt-operand", "Sqrt changed its operand")
	}
	if sq {
		c.Obs("squares", 1)
	} else {
		c.Obs("non-squares", 1)
	}
	c.Ev("Sqrt", a)
	z := 0
	if a.Sign() == 0 {
		z = 1
	}
	c.Check(F(a).IsZero() == z, "IsZero", "IsZero(%x) = %d", a, F(a).IsZero())
	c.Check(uint(F(a).Sign()) == a.Bit(0), "Sign", "Sign(%x) = %d", a, F(a).Sign())
	c.Check(bytes.Equal(F(a).AsBytes(), ref.Bytes32(a)), "AsBytes", "AsBytes(%x) = %x", a, F(a).AsBytes())
	c.Ev("Sign/AsBytes", a)
}

func c02unary(c *C) {
	a := c.Fe()
	if c.Int(3) == 0 {
		a = ref.FMul(a, a)
	}
	checkFieldUnary(c, a)
	c.Note("a=%x", a)
}

func c02edges(c *C) {
	a := core.FieldEdges[c.I]
	checkFieldUnary(c, a)
	for _, b := range core.FieldEdges {
		for _, op := range fOps {
			checkFieldBin(c, op, a, b, 1)
		}
		checkFieldPair(c, a, b)
	}
}

func c02convert(c *C) {
	n := c.Int(65)
	b := c.Bytes(n)
	switch c.Int(4) {
	case 0:
		b = bytes.Repeat([]byte{0xff}, n)
	case 1:
		m := new(big.Int).Mul(ref.P, new(big.Int).SetBytes(c.Bytes(32)))
		m.Add(m, bi(int64(c.Int(3))))
		m.Mod(m, new(big.Int).Lsh(bi(1), uint(8*n)))
		b = m.FillBytes(make([]byte, n))
	}
	f, err := curve.Field.FromBytesWide(K, b)
	want := ref.FMod(new(big.Int).SetBytes(b))
	c.Check(err == nil && f != nil, "FromBytesWide", "FromBytesWide(%x) refused: %v", b, err)
	c.Check(feq(f, want), "FromBytesWide", "FromBytesWide(%x) = %x, want %x", b, fv(f), want)
	c.Ev("FromBytesWide", b)
	a := c.Fe()
	f, err = curve.Field.FromBytes(K, ref.Bytes32(a))
	c.Check(err == nil && feq(f, a), "FromBytes", "FromBytes(%x) wrong", a)
	for _, k := range []struct {
		n string
		f curve.EccFieldElement
		v *Int
	}{{"Zero", curve.Field.Zero(K), bi(0)}, {"One", curve.Field.One(K), bi(1)}, {"A", curve.Field.A(K), bi(0)}, {"B", curve.Field.B(K), bi(7)}} {
		c.Check(feq(k.f, k.v), "constants", "%s = %x", k.n, fv(k.f))
	}
	c.Ev("FromBytes", a)
}

// ---------- C03 ----------

func pick2(c *C) (Pt, Pt) {
	a, b := c.Point(), c.Point()
	switch c.Int(6) {
	case 0:
		b = a
	case 1:
		b = a.Neg()
	case 2:
		b = a.Add(a)
	case 3:
		b = a.Add(ref.G)
	}
	return a, b
}

func checkPoint(c *C, got curve.EccPoint, want Pt, class, f string, args ...interface{}) {
	g := pv(got)
	c.Check(g.Inf || ref.OnCurve(g.X, g.Y), class, "result not on the curve: "+f, args...)
	c.Check(g.Equal(want), class, "got %x want %x: "+f, append([]interface{}{g.Compressed(), want.Compressed()}, args...)...)
}

func c03addsub(c *C) {
	a, b := pick2(c)
	type op struct {
		n  string
		do func(r, x, y curve.EccPoint) curve.EccPoint
		w  Pt
	}
	for _, o := range []op{
		{"AddPoints", func(r, x, y curve.EccPoint) curve.EccPoint { return r.AddPoints(x, y) }, a.Add(b)},
		{"SubPoints", func(r, x, y curve.EccPoint) curve.EccPoint { return r.SubPoints(x, y) }, a.Sub(b)},
	} {
		for mode := 0; mode < 4; mode++ {
			x, y := PR(c, a), PR(c, b)
			r := curve.Point.Identity(K)
			switch mode {
			case 1:
				r = x
			case 2:
				r = y
			case 3:
				r = PR(c, c.Point())
			}
			g := o.do(r, x, y)
			checkPoint(c, g, o.w, o.n, "%s(%x,%x) mode %d", o.n, a.Compressed(), b.Compressed(), mode)
			checkPoint(c, r, o.w, o.n, "receiver of %s(%x,%x) mode %d", o.n, a.Compressed(), b.Compressed(), mode)
			if mode != 1 {
				checkPoint(c, x, a, o.n+"-operand", "%s changed its left operand", o.n)
			}
			if mode != 2 {
				checkPoint(c, y, b, o.n+"-operand", "%s changed its right operand", o.n)
			}
		}
		c.Ev(o.n, a, b)
		if a.Equal(b) {
			x := PR(c, a)
			g := o.do(x, x, x)
			checkPoint(c, g, o.w, o.n, "%s(x,x) into x, x=%x", o.n, a.Compressed())
		}
	}
	for mode := 0; mode < 3; mode++ {
		x := PR(c, a)
		r := x
		if mode == 1 {
			r = PR(c, c.Point())
		} else if mode == 2 {
			r = curve.Point.Identity(K)
		}
		g := r.Double(x)
		checkPoint(c, g, a.Add(a), "Double", "Double(%x) mode %d", a.Compressed(), mode)
		checkPoint(c, r, a.Add(a), "Double", "receiver of Double(%x) mode %d", a.Compressed(), mode)
		if mode != 0 {
			checkPoint(c, x, a, "Double-operand", "Double changed its operand")
		}
		c.Ev("Double", a)
	}
	x := PR(c, a)
	cl, as := x.Clone(), curve.Point.Identity(K).Assign(x)
	x.AddPoints(x, P(ref.G))
	checkPoint(c, cl, a, "Clone", "clone of %x after changing the original", a.Compressed())
	checkPoint(c, as, a, "Assign", "assigned copy of %x after changing the original", a.Compressed())
	src := PR(c, a)
	dst := curve.Point.GeneratorG(K)
	dst.Assign(src)
	sum := dst.Clone()
	switch c.Int(4) {
	case 0:
		dst.AddPoints(dst, P(ref.G))
	case 1:
		dst.SubPoints(dst, P(ref.G))
	case 2:
		dst.Double(dst)
	default:
		dst.ScalarMul(dst, S(bi(3)))
	}
	checkPoint(c, src, a, "Assign-shares", "%x after changing a point assigned from it", a.Compressed())
	checkPoint(c, sum, a, "Clone", "clone of %x after changing the original", a.Compressed())
	if a.Inf || b.Inf {
		c.Obs("infinity operands", 1)
	}
	if a.Equal(b.Neg()) {
		c.Obs("opposite operands", 1)
	}
	c.Note("a=%x b=%x", a.Compressed(), b.Compressed())
}

func c03mul(c *C) {
	a, k := c.Point(), c.Scalar()
	w := a.Mul(k)
	if c.I%16 == 0 {
		c.Check(a.MulSlow(k).Equal(w), "model", "reference multiplications disagree")
	}
	for mode := 0; mode < 3; mode++ {
		x, s := PR(c, a), S(k)
		r := x
		if mode == 1 {
			r = PR(c, c.Point())
		} else if mode == 2 {
			r = curve.Point.Identity(K)
		}
		g := r.ScalarMul(x, s)
		checkPoint(c, g, w, "ScalarMul", "ScalarMul(%x,%x) mode %d", a.Compressed(), k, mode)
		checkPoint(c, r, w, "ScalarMul", "receiver of ScalarMul(%x,%x) mode %d", a.Compressed(), k, mode)
		if mode != 0 {
			checkPoint(c, x, a, "ScalarMul-operand", "ScalarMul changed its point")
		}
		c.Check(seq(s, k), "ScalarMul-operand", "ScalarMul changed its scalar %x", k)
	}
	c.Ev("ScalarMul", a, k)
	s := S(k)
	checkPoint(c, curve.Point.MulByG(s), ref.MulG(k), "MulByG", "MulByG(%x)", k)
	c.Check(seq(s, k), "MulByG-operand", "MulByG changed its scalar")
	c.Ev("MulByG", k)
	c.Note("a=%x k=%x", a.Compressed(), k)
}

func c03lincomb(c *C) {
	a, b := pick2(c)
	s, t := c.Scalar(), c.Scalar()
	switch c.Int(6) {
	case 0:
		t = new(big.Int).Set(s)
	case 1:
		t = ref.Neg(s)
	case 2:
		t = bi(0)
	case 3:
		s = bi(0)
	}
	x, y, u, v := PR(c, a), PR(c, b), S(s), S(t)
	if c.Int(8) == 0 {
		b, y = a, x // the same object twice
	}
	w := a.Mul(s).Add(b.Mul(t))
	g := curve.Point.MulPoints(x, u, y, v)
	checkPoint(c, g, w, "MulPoints", "MulPoints(%x,%x,%x,%x)", a.Compressed(), s, b.Compressed(), t)
	checkPoint(c, x, a, "MulPoints-operand", "MulPoints changed its first point")
	checkPoint(c, y, b, "MulPoints-operand", "MulPoints changed its second point")
	c.Check(seq(u, s) && seq(v, t), "MulPoints-operand", "MulPoints changed a scalar")
	c.Ev("MulPoints", a, s, b, t)
	g = curve.Point.Pedersen(u, v)
	checkPoint(c, g, ref.Pedersen(s, t), "Pedersen", "Pedersen(%x,%x)", s, t)
	c.Check(seq(u, s) && seq(v, t), "Pedersen-operand", "Pedersen changed a scalar")
	c.Ev("Pedersen", s, t)
	c.Note("%x*%x + %x*%x", s, a.Compressed(), t, b.Compressed())
}

func c03index(c *C) {
	a, i := c.Point(), c.WideIndex()
	if c.I < len(core.WideEdges) {
		i = core.WideEdges[c.I]
		if c.I%3 != 0 && a.Inf {
			a = ref.G
		}
	}
	x := PR(c, a)
	g := x.MulByNodeIndex(NI(i))
	checkPoint(c, g, a.Mul(X(NI(i))), "MulByNodeIndex", "%x.MulByNodeIndex(%d)", a.Compressed(), i)
	checkPoint(c, x, a, "MulByNodeIndex-operand", "MulByNodeIndex changed its receiver %x", a.Compressed())
	g.AddPoints(g, P(ref.G))
	checkPoint(c, x, a, "MulByNodeIndex-shares", "changing the result of MulByNodeIndex(%d) changed the receiver", i)
	c.Ev("MulByNodeIndex", a, i)
	c.Note("%x index %d", a.Compressed(), i)
}

func c03equal(c *C) {
	a, b := pick2(c)
	x, y := PR(c, a), PR(c, b)
	want := 0
	if a.Equal(b) {
		want = 1
	}
	c.Check(x.Equal(y) == want && y.Equal(x) == want, "Equal", "Equal(%x,%x) = %d/%d", a.Compressed(), b.Compressed(), x.Equal(y), y.Equal(x))
	c.Ev("Equal", a, b)
	z := PZ(a, c.RandScalar())
	c.Check(z.Equal(P(a)) == 1 && P(a).Equal(z) == 1, "Equal", "two representations of %x differ", a.Compressed())
	d := curve.Point.Identity(K).SubPoints(x, PR(c, a))
	c.Check(d.IsInfinity() && d.Equal(curve.Point.Identity(K)) == 1 && curve.Point.Identity(K).Equal(d) == 1, "IsInfinity", "x-x not the identity for %x", a.Compressed())
	c.Check(x.IsInfinity() == a.Inf, "IsInfinity", "IsInfinity(%x) = %v", a.Compressed(), x.IsInfinity())
	if !a.Inf {
		c.Check(d.Equal(x) == 0 && x.Equal(d) == 0, "Equal", "identity equals %x", a.Compressed())
		c.Check(x.Equal(P(a.Neg())) == 0, "Equal", "%x equals its negative", a.Compressed())
		q, err := curve.Point.FromFieldElems(F(a.X), F(a.Y))
		c.Check(err == nil, "FromFieldElems", "coordinates of %x refused: %v", a.Compressed(), err)
		checkPoint(c, q, a, "FromFieldElems", "FromFieldElems(%x)", a.Compressed())
		c.Check(feq(x.AffineX(), a.X) && feq(x.AffineY(), a.Y), "Affine", "affine coordinates of %x wrong", a.Compressed())
	}
	c.Note("a=%x b=%x equal=%d", a.Compressed(), b.Compressed(), want)
}

func c03constants(c *C) {
	checkPoint(c, curve.Point.GeneratorG(K), ref.G, "generator", "G")
	checkPoint(c, curve.Point.GeneratorH(K), ref.H, "generator", "H")
	checkPoint(c, curve.Point.Identity(K), ref.Infinity(), "generator", "identity")
	// fresh objects each time
	g := curve.Point.GeneratorG(K)
	g.AddPoints(g, g)
	h := curve.Point.GeneratorH(K)
	h.Double(h)
	checkPoint(c, curve.Point.GeneratorG(K), ref.G, "generator", "G after changing a copy")
	checkPoint(c, curve.Point.GeneratorH(K), ref.H, "generator", "H after changing a copy")
	c.Ev("constants")
}

// ---------- C04 ----------

func c04roundtrip(c *C) {
	s := c.Scalar()
	x := S(s)
	c.Check(bytes.Equal(x.Serialize(), ref.Bytes32(s)), "scalar-encode", "Serialize(%x) = %x", s, x.Serialize())
	tag := append([]byte{1}, ref.Bytes32(s)...)
	c.Check(bytes.Equal(x.SerializeTagged(), tag), "scalar-encode", "SerializeTagged(%x) = %x", s, x.SerializeTagged())
	d, err := curve.Scalar.Deserialize(K, x.Serialize())
	c.Check(err == nil && d != nil && seq(d, s), "scalar-roundtrip", "scalar %x does not round-trip: %v", s, err)
	d, err = curve.Scalar.DeserializeTagged(x.SerializeTagged())
	c.Check(err == nil && d != nil && seq(d, s), "scalar-tagged-roundtrip", "tagged scalar %x does not round-trip: %v", s, err)
	cb, err := cbor.Marshal(x)
	c.Check(err == nil, "scalar-cbor", "CBOR of scalar %x failed: %v", s, err)
	wantCB, _ := cbor.Marshal(tag)
	c.Check(bytes.Equal(cb, wantCB), "scalar-cbor", "CBOR of scalar %x = %x, want %x", s, cb, wantCB)
	var u curve.Secp256k1Scalar
	c.Check(cbor.Unmarshal(cb, &u) == nil && seq(&u, s), "scalar-cbor", "CBOR scalar %x does not round-trip", s)
	sb := curve.Scalar.ToScalarBytes(x)
	c.Check(sb != nil, "scalar-bytes", "ToScalarBytes(%x) = nil", s)
	c.Check(bytes.Equal(sb.ScalarBytes(), ref.Bytes32(s)) && seq(sb.ToScalar(), s), "scalar-bytes", "ToScalarBytes(%x) = %x", s, sb.ScalarBytes())
	c.Ev("scalar", s)

	p := c.Point()
	y := PR(c, p)
	c.Check(bytes.Equal(y.Serialize(), p.Compressed()), "point-encode", "Serialize(%x) = %x", p.Compressed(), y.Serialize())
	c.Check(bytes.Equal(y.SerializeTagged(), p.Tagged()), "point-encode", "SerializeTagged(%x) = %x", p.Compressed(), y.SerializeTagged())
	q, err := curve.Point.Deserialize(K, y.Serialize())
	c.Check(err == nil && q != nil && peq(q, p), "point-roundtrip", "point %x does not round-trip: %v", p.Compressed(), err)
	q, err = curve.Point.DeserializeTagged(K, y.SerializeTagged())
	c.Check(err == nil && q != nil && peq(q, p), "point-tagged-roundtrip", "tagged point %x does not round-trip: %v", p.Compressed(), err)
	cb, err = cbor.Marshal(y)
	wantCB, _ = cbor.Marshal(p.Tagged())
	c.Check(err == nil && bytes.Equal(cb, wantCB), "point-cbor", "CBOR of point %x = %x (%v)", p.Compressed(), cb, err)
	var v curve.Secp256k1Point
	c.Check(cbor.Unmarshal(cb, &v) == nil && peq(&v, p), "point-cbor", "CBOR point %x does not round-trip", p.Compressed())
	if !p.Inf {
		un := y.SerializeUncompressed()
		c.Check(bytes.Equal(un, p.Uncompressed()), "point-uncompressed", "SerializeUncompressed(%x) = %x", p.Compressed(), un)
		q, err = curve.Point.DeserializeAnyFormat(K, un)
		c.Check(err == nil && q != nil && peq(q, p), "point-uncompressed", "uncompressed point %x does not round-trip: %v", p.Compressed(), err)
	} else {
		y.SerializeUncompressed() // must not crash
		c.Obs("infinity round-trips", 1)
	}
	// encoding does not disturb the object
	c.Check(peq(y, p) && seq(x, s), "encode-mutates", "encoding changed the value")
	c.Ev("point", p)
	f := c.Fe()
	g, err := curve.Field.FromBytes(K, F(f).AsBytes())
	c.Check(err == nil && feq(g, f), "field-roundtrip", "field element %x does not round-trip", f)
	c.Note("scalar %x, point %x, all encodings", s, p.Compressed())
}

// mutate an encoding: length, first byte, bit flips, replaced value.
func mutateEnc(c *C, b []byte) []byte {
	b = append([]byte{}, b...)
	switch c.Int(10) {
	case 0:
		if len(b) > 0 {
			b = b[:c.Int(len(b))]
		}
	case 1:
		b = append(b, c.Bytes(1+c.Int(3))...)
	case 2:
		b = append(b, make([]byte, 1+c.Int(33))...)
	case 3:
		b = append(make([]byte, 1+c.Int(3)), b...)
	case 4:
		if len(b) > 0 {
			b[0] = byte(c.Int(256))
		}
	case 5:
		if len(b) > 0 {
			b[0] = byte(c.Int(8))
		}
	case 6, 7:
		if len(b) > 0 {
			b[c.Int(len(b))] ^= 1 << uint(c.Int(8))
		}
	case 8:
		if len(b) > 1 {
			b = b[1:]
		}
	}
	return b
}

func overRange(c *C, m *Int) []byte { // 32-byte integer in [m, 2^256)
	top := new(big.Int).Lsh(bi(1), 256)
	d := new(big.Int).Sub(top, m)
	var v *Int
	switch c.Int(4) {
	case 0:
		v = new(big.Int).Set(m)
	case 1:
		v = new(big.Int).Sub(top, bi(1))
	case 2:
		v = new(big.Int).Add(m, bi(int64(c.Int(5))))
	default:
		v = new(big.Int).Add(m, c.Uniform(d))
	}
	return v.FillBytes(make([]byte, 32))
}

func c04scalar(c *C) {
	var b []byte
	switch c.Int(5) {
	case 0:
		b = overRange(c, ref.N)
	case 1:
		b = c.Bytes(c.Int(70))
	case 2:
		b = make([]byte, c.Int(70))
	default:
		b = ref.Bytes32(c.Scalar())
	}
	if c.Int(3) > 0 {
		b = mutateEnc(c, b)
	}
	want := new(big.Int).SetBytes(b)
	ok := len(b) == 32 && want.Cmp(ref.N) < 0
	decide := func(name string, ok bool, want *Int, in []byte, s curve.EccScalar, err error) {
		if ok {
			c.Check(err == nil && s != nil, name, "%s refused canonical %x: %v", name, in, err)
			c.Check(seq(s, want), name, "%s(%x) = %x", name, in, sv(s))
			c.Obs(name+" accepted", 1)
		} else {
			c.Check(err != nil, name+"-accepts", "%s accepted %x", name, in)
			c.Obs(name+" refused", 1)
		}
		c.Ev(name, in)
	}
	keep := append([]byte{}, b...)
	s, err := curve.Scalar.Deserialize(K, b)
	decide("Deserialize", ok, want, b, s, err)
	tg := byte(1)
	if c.Int(4) == 0 {
		tg = byte(c.Int(256))
	}
	tb := append([]byte{tg}, b...)
	if c.Int(4) == 0 {
		tb = mutateEnc(c, tb)
	}
	tok := len(tb) == 33 && tb[0] == 1 && new(big.Int).SetBytes(tb[1:]).Cmp(ref.N) < 0
	var tv *Int
	if tok {
		tv = new(big.Int).SetBytes(tb[1:])
	}
	s, err = curve.Scalar.DeserializeTagged(tb)
	decide("DeserializeTagged", tok, tv, tb, s, err)
	// other curves
	ct := curve.EccCurveType([]int{0, 2, 3, -1, 255, 257}[c.Int(6)])
	s, err = curve.Scalar.Deserialize(ct, b)
	decide("Deserialize(unknown curve)", false, nil, b, s, err)
	c.Check(bytes.Equal(b, keep), "input-changed", "decoding changed its input")
	// base field
	var fb []byte
	if c.Int(3) == 0 {
		fb = overRange(c, ref.P)
	} else {
		fb = mutateEnc(c, ref.Bytes32(c.Fe()))
	}
	fw := new(big.Int).SetBytes(fb)
	f, err := curve.Field.FromBytes(K, fb)
	if len(fb) == 32 && fw.Cmp(ref.P) < 0 {
		c.Check(err == nil && feq(f, fw), "Field.FromBytes", "Field.FromBytes(%x) wrong: %v", fb, err)
	} else {
		c.Check(err != nil, "Field.FromBytes-accepts", "Field.FromBytes accepted %x", fb)
	}
	c.Ev("Field.FromBytes", fb)
	c.Note("scalar string %x canonical=%v; tagged %x canonical=%v", b, ok, tb, tok)
}

// decodeCompressed is the model of the 33-byte encoding.
func decodeCompressed(b []byte) (Pt, bool) {
	if len(b) != 33 {
		return Pt{}, false
	}
	if bytes.Equal(b, make([]byte, 33)) {
		return ref.Infinity(), true
	}
	x := new(big.Int).SetBytes(b[1:])
	if (b[0] != 2 && b[0] != 3) || x.Cmp(ref.P) >= 0 {
		return Pt{}, false
	}
	return ref.Decompress(x, uint(b[0]&1))
}

func decodeUncompressed(b []byte) (Pt, bool) {
	if len(b) != 65 || b[0] != 4 {
		return Pt{}, false
	}
	x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
	if x.Cmp(ref.P) >= 0 || y.Cmp(ref.P) >= 0 || !ref.OnCurve(x, y) {
		return Pt{}, false
	}
	return Pt{X: x, Y: y}, true
}

// smallX: an x+p representation below 2^256 exists only for tiny x; find one on the curve.
var smallXs = func() []*Int {
	var out []*Int
	lim := new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), ref.P)
	for i := int64(0); len(out) < 40; i++ {
		x := bi(i)
		if x.Cmp(lim) >= 0 {
			break
		}
		if _, ok := ref.Decompress(x, 0); ok {
			out = append(out, x)
		}
	}
	return out
}()

func pointString(c *C) []byte {
	switch c.Int(10) {
	case 0:
		return make([]byte, c.Int(67))
	case 1: // non-residue or random x
		return append([]byte{byte(2 + c.Int(2))}, ref.Bytes32(c.Fe())...)
	case 2: // x not reduced
		x := smallXs[c.Int(len(smallXs))]
		return append([]byte{byte(2 + c.Int(2))}, new(big.Int).Add(x, ref.P).FillBytes(make([]byte, 32))...)
	case 3: // uncompressed with wrong y
		p := c.RandPoint()
		b := p.Uncompressed()
		switch c.Int(4) {
		case 0:
			b[33+c.Int(32)] ^= 1 << uint(c.Int(8))
		case 1:
			copy(b[33:], ref.Bytes32(c.Fe()))
		case 2:
			copy(b[1:33], overRange(c, ref.P))
		case 3:
			x := smallXs[c.Int(len(smallXs))]
			q, _ := ref.Decompress(x, 1)
			b = append([]byte{4}, new(big.Int).Add(x, ref.P).FillBytes(make([]byte, 32))...)
			b = append(b, ref.Bytes32(q.Y)...)
		}
		return b
	case 4:
		return c.RandPoint().Uncompressed()
	case 5:
		x := smallXs[c.Int(len(smallXs))]
		p, _ := ref.Decompress(x, uint(c.Int(2)))
		return p.Compressed()
	case 6:
		return append([]byte{byte(2 + c.Int(2))}, overRange(c, ref.P)...)
	case 7: // infinity-like
		b := make([]byte, 33)
		b[c.Int(33)] = byte(c.Int(4))
		return b
	}
	return c.Point().Compressed()
}

func c04point(c *C) {
	b := pointString(c)
	if c.Int(2) == 0 {
		b = mutateEnc(c, b)
	}
	decide := func(name string, ok bool, want Pt, in []byte, q curve.EccPoint, err error) {
		if ok {
			c.Check(err == nil && q != nil, name, "%s refused canonical %x: %v", name, in, err)
			c.Check(peq(q, want), name, "%s(%x) = %x", name, in, pv(q).Compressed())
			c.Obs(name+" accepted", 1)
		} else {
			c.Check(err != nil, name+"-accepts", "%s accepted %x", name, in)
			c.Obs(name+" refused", 1)
		}
		c.Ev(name, in)
	}
	keep := append([]byte{}, b...)
	want, ok := decodeCompressed(b)
	q, err := curve.Point.Deserialize(K, b)
	decide("Deserialize", ok, want, b, q, err)

	tg := byte(1)
	if c.Int(4) == 0 {
		tg = byte(c.Int(256))
	}
	tb := append([]byte{tg}, b...)
	if c.Int(5) == 0 {
		tb = mutateEnc(c, tb)
	}
	var tw Pt
	tok := len(tb) == 34 && tb[0] == 1
	if tok {
		tw, tok = decodeCompressed(tb[1:])
	}
	q, err = curve.Point.DeserializeTagged(K, tb)
	decide("DeserializeTagged", tok, tw, tb, q, err)

	// any SEC1 format: compressed, uncompressed; the one-byte infinity and the
	// compact form are left open.
	if !(len(b) == 1 && b[0] == 0) && !(len(b) == 33 && b[0] == 5) && !bytes.Equal(b, make([]byte, 33)) {
		aw, aok := decodeCompressed(b)
		if !aok {
			aw, aok = decodeUncompressed(b)
		}
		q, err = curve.Point.DeserializeAnyFormat(K, b)
		decide("DeserializeAnyFormat", aok, aw, b, q, err)
	}
	ct := curve.EccCurveType([]int{0, 2, 3, -1, 255, 257}[c.Int(6)])
	q, err = curve.Point.Deserialize(ct, b)
	decide("Deserialize(unknown curve)", false, Pt{}, b, q, err)
	c.Check(bytes.Equal(b, keep), "input-changed", "decoding changed its input")
	// coordinates
	x, y := c.Fe(), c.Fe()
	if c.Int(2) == 0 {
		p := c.RandPoint()
		x, y = p.X, p.Y
		switch c.Int(4) {
		case 0:
			y = ref.FNeg(y)
		case 1:
			y = ref.FAdd(y, bi(1))
		case 2:
			x = ref.FAdd(x, bi(1))
		}
	}
	q, err = curve.Point.FromFieldElems(F(x), F(y))
	cat := append(append([]byte{4}, ref.Bytes32(x)...), ref.Bytes32(y)...)
	decide("FromFieldElems", ref.OnCurve(x, y), Pt{X: x, Y: y}, cat, q, err)
	c.Note("point string %x canonical=%v", b, ok)
}

func c04cbor(c *C) {
	// scalars
	sb := append([]byte{1}, ref.Bytes32(c.Scalar())...)
	switch c.Int(4) {
	case 0:
		sb = append([]byte{byte(c.Int(256))}, overRange(c, ref.N)...)
	case 1, 2:
		sb = mutateEnc(c, sb)
	}
	ok := len(sb) == 33 && sb[0] == 1 && new(big.Int).SetBytes(sb[1:]).Cmp(ref.N) < 0
	enc, _ := cbor.Marshal(sb)
	raw := enc
	if c.Int(6) == 0 { // a different CBOR item
		raw, _ = cbor.Marshal([]interface{}{string(sb), []int{1, 2}, 7, nil, map[string]int{"a": 1}}[c.Int(5)])
		ok = false
	} else if c.Int(8) == 0 {
		raw = raw[:c.Int(len(raw))]
		ok = false
	}
	isNull := len(raw) == 1 && (raw[0] == 0xf6 || raw[0] == 0xf7)
	var u curve.Secp256k1Scalar
	err := cbor.Unmarshal(raw, &u)
	if ok {
		c.Check(err == nil && seq(&u, new(big.Int).SetBytes(sb[1:])), "cbor-scalar", "CBOR scalar %x refused or wrong: %v", raw, err)
	} else if !isNull {
		c.Check(err != nil, "cbor-scalar-accepts", "CBOR scalar accepted %x", raw)
	}
	c.Ev("cbor-scalar", raw)
	// points
	pb := append([]byte{1}, pointString(c)...)
	if c.Int(3) == 0 {
		pb = mutateEnc(c, pb)
	}
	if c.Int(8) == 0 && len(pb) > 0 {
		pb[0] = byte(c.Int(256))
	}
	var w Pt
	pok := len(pb) == 34 && pb[0] == 1
	if pok {
		w, pok = decodeCompressed(pb[1:])
	}
	enc, _ = cbor.Marshal(pb)
	var v curve.Secp256k1Point
	err = cbor.Unmarshal(enc, &v)
	if pok {
		c.Check(err == nil && peq(&v, w), "cbor-point", "CBOR point %x refused or wrong: %v", enc, err)
	} else {
		c.Check(err != nil, "cbor-point-accepts", "CBOR point accepted %x", enc)
	}
	c.Ev("cbor-point", enc)
	c.Note("cbor scalar %x canonical=%v, point %x canonical=%v", raw, ok, enc, pok)
}

func c04sec1(c *C) {
	p := c.RandPoint()
	un := p.Uncompressed()
	e, err := curve.Encode.FromBytes(un)
	c.Check(err == nil, "sec1", "SEC1 %x refused: %v", un, err)
	c.Check(bytes.Equal(e.AsBytes(), un) && e.Len() == 65 && !e.IsCompressed() && !e.IsIdentity() && !e.IsCompact(), "sec1", "SEC1 view of %x wrong", un)
	c.Check(bytes.Equal(e.X(), ref.Bytes32(p.X)) && bytes.Equal(e.Y(), ref.Bytes32(p.Y)), "sec1", "SEC1 coordinates of %x wrong", un)
	cm := e.Compress()
	c.Check(bytes.Equal(cm.AsBytes(), p.Compressed()) && cm.IsCompressed(), "sec1-compress", "compressing %x = %x", un, cm.AsBytes())
	e2, err := curve.Encode.FromBytes(p.Compressed())
	c.Check(err == nil && bytes.Equal(e2.AsBytes(), p.Compressed()) && bytes.Equal(e2.X(), ref.Bytes32(p.X)) && len(e2.Y()) == 0, "sec1", "SEC1 compressed view of %x wrong", p.Compressed())
	e3 := curve.Encode.FromUnTaggedBytes(un[1:])
	c.Check(bytes.Equal(e3.AsBytes(), un), "sec1", "untagged %x = %x", un[1:], e3.AsBytes())
	for _, comp := range []bool{true, false} {
		e4 := curve.Encode.FromAffineCoordinates(ref.Bytes32(p.X), ref.Bytes32(p.Y), comp)
		want := un
		if comp {
			want = p.Compressed()
		}
		c.Check(bytes.Equal(e4.AsBytes(), want), "sec1", "FromAffineCoordinates(%v) = %x", comp, e4.AsBytes())
	}
	// length decides
	for _, tag := range []byte{0, 2, 3, 4, 5} {
		want := map[byte]int{0: 1, 2: 33, 3: 33, 4: 65, 5: 33}[tag]
		n := c.Int(70)
		b := append([]byte{tag}, c.Bytes(n)...)
		_, err := curve.Encode.FromBytes(b)
		c.Check((err == nil) == (len(b) == want), "sec1-length", "SEC1 string of tag %d and length %d: error %v", tag, len(b), err)
		c.Ev("sec1-length", int(tag), len(b))
	}
	c.Ev("sec1", p)
	c.Note("SEC1 views of %x", p.Compressed())
}

// ---------- C05 ----------

func c05msg(c *C) []byte { return c.ADMax(5000) }
func c05dst(c *C) []byte {
	l := []int{0, 1, 2, 16, 32, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000}
	if c.Bool() {
		return c.Bytes(l[c.Int(len(l))])
	}
	return c.Bytes(c.Int(320))
}

func c05xmd(c *C) {
	msg, dst := c05msg(c), c05dst(c)
	ls := []int{1, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 128, 255, 256, 257, 480, 1000, 4096, 8128, 8129, 8159, 8160}
	n := ls[c.Int(len(ls))]
	if c.Bool() {
		n = 1 + c.Int(700)
	}
	if c.I%50 == 0 {
		n = 1 + c.Int(8160)
	}
	km, kd := append([]byte{}, msg...), append([]byte{}, dst...)
	out, err := seed.ExpandMessageXmd(msg, dst, n)
	c.Check(err == nil, "xmd", "XMD length %d refused: %v", n, err)
	want := ref.XMD(msg, dst, n)
	c.Check(bytes.Equal(out, want), "xmd", "XMD(msg %d bytes, dst %d bytes, %d) = %x..., want %x...", len(msg), len(dst), n, sha(out, 40), sha(want, 40))
	c.Check(bytes.Equal(km, msg) && bytes.Equal(kd, dst), "xmd-input", "XMD changed its input")
	if len(dst) > 255 {
		c.Obs("oversize separators", 1)
	}
	c.Ev("xmd", msg, dst, n)
	big := []int{8161, 8162, 8192, 9000, 65535, 65536, 65537, 100000, 1 << 20}[c.Int(9)]
	_, err = seed.ExpandMessageXmd(msg, dst, big)
	c.Check(err != nil, "xmd-limit", "XMD accepted length %d", big)
	c.Note("XMD msg %d bytes, dst %d bytes, out %d", len(msg), len(dst), n)
}

func c05field(c *C) {
	msg, dst := c05msg(c), c05dst(c)
	n := 1 + c.Int(5)
	if c.Int(20) == 0 {
		n = 165 + c.Int(6)
	}
	f, err := curve.HashToField(n, K, msg, dst)
	c.Check(err == nil && len(f) == n, "hash-to-field", "HashToField count %d: %d values, %v", n, len(f), err)
	for i, w := range ref.HashToField(n, msg, dst) {
		c.Check(feq(f[i], w), "hash-to-field", "HashToField(%d)[%d] = %x, want %x", n, i, fv(f[i]), w)
	}
	s, err := curve.HashToScalar(n, K, msg, dst)
	c.Check(err == nil && len(s) == n, "hash-to-scalar", "HashToScalar count %d: %d values, %v", n, len(s), err)
	s2, err2 := curve.Scalar.HashToSeveralScalar(K, n, msg, dst)
	c.Check(err2 == nil && len(s2) == n, "hash-to-scalar", "HashToSeveralScalar count %d: %v", n, err2)
	for i, w := range ref.HashToScalar(n, msg, dst) {
		c.Check(seq(s[i], w) && seq(s2[i], w), "hash-to-scalar", "HashToScalar(%d)[%d] = %x, want %x", n, i, sv(s[i]), w)
	}
	one, err := curve.Scalar.HashToScalar(K, msg, dst)
	c.Check(err == nil && seq(one, ref.HashToScalar(1, msg, dst)[0]), "hash-to-scalar", "HashToScalar single differs")
	c.Ev("field", msg, dst, n)
	_, err = curve.HashToField(171+c.Int(100), K, msg, dst)
	c.Check(err != nil, "hash-limit", "HashToField accepted more than 170 elements")
	_, err = curve.HashToScalar(171+c.Int(100), K, msg, dst)
	c.Check(err != nil, "hash-limit", "HashToScalar accepted more than 170 elements")
	c.Note("hash to %d field elements and scalars, msg %d dst %d bytes", n, len(msg), len(dst))
}

// exceptional SSWU inputs: u=0 and Z*u^2 = -1.
var sswuSpecial = func() []*Int {
	out := []*Int{bi(0), bi(1), ref.FNeg(bi(1)), bi(2), bi(11)}
	z := ref.FNeg(bi(11))
	r := ref.FNeg(ref.FInv(z))
	if ref.FIsSquare(r) {
		s := ref.FSqrt(r)
		out = append(out, s, ref.FNeg(s))
	}
	return out
}()

func c05map(c *C) {
	u := c.Fe()
	if c.I < len(sswuSpecial) {
		u = sswuSpecial[c.I]
	}
	f := F(u)
	p, err := curve.MapToCurve(f)
	c.Check(err == nil && p != nil, "map", "MapToCurve(%x) failed: %v", u, err)
	checkPoint(c, p, ref.MapToCurve(u), "map", "MapToCurve(%x)", u)
	c.Check(feq(f, u), "map-input", "MapToCurve changed its input %x to %x", u, fv(f))
	c.Ev("map", u)
	c.Note("MapToCurve(%x)", u)
}

func c05curve(c *C) {
	msg, dst := c05msg(c), c05dst(c)
	p, err := curve.HashToCurveRo(K, msg, dst)
	c.Check(err == nil && p != nil, "hash-to-curve", "failed: %v", err)
	w := ref.HashToCurve(msg, dst)
	checkPoint(c, p, w, "hash-to-curve", "HashToCurveRo(msg %x.., dst %x..)", sha(msg, 20), sha(dst, 20))
	q, err := curve.Point.HashToPoint(K, msg, dst)
	c.Check(err == nil && peq(q, w), "hash-to-curve", "HashToPoint differs: %v", err)
	c.Ev("curve", msg, dst)
	c.Note("hash to curve msg %d dst %d bytes", len(msg), len(dst))
}
