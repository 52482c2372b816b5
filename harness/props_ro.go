package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C06", MinEval: 500,
		Rule: "one evaluation compares one oracle output (or refusal) with an independent model of the oracle encoding; distinct by separator, inputs and output kind",
		Gens: []core.Gen{
			{Name: "outputs", Quick: 900, Thorough: 40000, Run: c06outputs},
			{Name: "refuse", Quick: 600, Thorough: 20000, Run: c06refuse},
			{Name: "separate", Quick: 600, Thorough: 20000, Run: c06separate},
			{Name: "lengths", Quick: 320, Thorough: 3000, Run: c06lengths},
			{Name: "long-separate", Quick: 40, Thorough: 1000, Run: c06separate},
			{Name: "kept", Quick: 80, Thorough: 3000, Run: c06kept},
			{Name: "long-outputs", Quick: 40, Thorough: 1000, Run: c06outputs},
		}})
	core.Register(&core.Prop{ID: "C07", MinEval: 500,
		Rule: "one evaluation compares one seed, key-stream segment or rejection-sampled scalar with an independent XMD / ChaCha20 model; distinct by input, label and request split",
		Gens: []core.Gen{
			{Name: "seed", Quick: 800, Thorough: 30000, Run: c07seed},
			{Name: "stream", Quick: 600, Thorough: 20000, Run: c07stream},
			{Name: "random", Quick: 600, Thorough: 20000, Run: c07random},
			{Name: "unbiased", Quick: 2, Thorough: 10, Run: c07unbiased},
			{Name: "long-seed", Quick: 40, Thorough: 1000, Run: c07seed},
			{Name: "interleaved", Quick: 200, Thorough: 5000, Run: c07interleaved},
			{Name: "long-interleaved", Quick: 40, Thorough: 500, Run: c07interleaved},
			{Name: "kept", Quick: 80, Thorough: 3000, Run: c07kept},
		}})
}

type roIn struct {
	name string
	add  func(o *ro.RandomOracle) error
	mod  func(r *ref.RO)
	desc string
}

func roName(c *C) string {
	switch c.Int(8) {
	case 0:
		return string(c.Bytes(1))
	case 1:
		return string(c.Bytes(255))
	case 2:
		return string(c.Bytes(1 + c.Int(255)))
	case 3:
		return "n" + string(rune('a'+c.Int(4)))
	}
	return fmt.Sprintf("name%d", c.Int(100))
}

func roLen(c *C) int {
	e := []int{0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 253, 254, 255, 256, 257, 258, 511, 512, 1000, 4096, 65535, 65536, 70000}
	if c.Long() && c.Int(3) > 0 {
		return c.LongLen()
	}
	if c.Int(3) == 0 {
		return c.Int(600)
	}
	return e[c.Int(len(e))]
}

func roInput(c *C, name string) roIn {
	switch c.Int(7) {
	case 0:
		p := c.Point()
		lp := PR(c, p)
		return roIn{name, func(o *ro.RandomOracle) error { return o.AddPoint(name, lp) }, func(r *ref.RO) { r.Point(name, p) }, fmt.Sprintf("point %x", p.Compressed())}
	case 1:
		s := c.Scalar()
		return roIn{name, func(o *ro.RandomOracle) error { return o.AddScalar(name, S(s)) }, func(r *ref.RO) { r.Scalar(name, s) }, fmt.Sprintf("scalar %x", s)}
	case 2:
		v := c.R.Uint64() >> uint(c.Int(64))
		return roIn{name, func(o *ro.RandomOracle) error { return o.AddUint64(name, v) }, func(r *ref.RO) { r.Int(name, v) }, fmt.Sprintf("u64 %d", v)}
	case 3:
		v := c.R.Uint32() >> uint(c.Int(32))
		return roIn{name, func(o *ro.RandomOracle) error { return o.AddUint32(name, v) }, func(r *ref.RO) { r.Int(name, uint64(v)) }, fmt.Sprintf("u32 %d", v)}
	case 4:
		v := c.Bytes(roLen(c))
		ty := []ro.RandomOracleInputType{ro.ByteString, ro.Integer, ro.Point, ro.Scalar}[c.Int(4)]
		return roIn{name, func(o *ro.RandomOracle) error { return o.AddInput(name, v, ty) }, func(r *ref.RO) { r.Add(name, byte(ty), v) }, fmt.Sprintf("typed %d len %d", ty, len(v))}
	}
	v := c.Bytes(roLen(c))
	return roIn{name, func(o *ro.RandomOracle) error { return o.AddBytesString(name, v) }, func(r *ref.RO) { r.Bytes(name, v) }, fmt.Sprintf("bytes len %d", len(v))}
}

func roDst(c *C) string {
	switch c.Int(6) {
	case 0:
		return ""
	case 1:
		return string(c.Bytes(240 + c.Int(40)))
	}
	return fmt.Sprintf("ic-test-dst-%d", c.Int(1000))
}

func checkRO(c *C, o *ro.RandomOracle, r *ref.RO) {
	n := 1 + c.Int(5)
	got, err := o.OutputScalars(K, n)
	c.Check(err == nil, "OutputScalars", "OutputScalars(%d) failed: %v", n, err)
	want := r.OutScalars(n)
	c.Check(len(got) == n, "OutputScalars", "OutputScalars(%d) gave %d", n, len(got))
	for i := range got {
		c.Check(seq(got[i], want[i]), "OutputScalars", "OutputScalars(%d)[%d] = %x want %x", n, i, sv(got[i]), want[i])
	}
	one, err := o.OutputScalar(K)
	c.Check(err == nil && seq(one, r.OutScalars(1)[0]), "OutputScalar", "OutputScalar = %v (%v), want %x", one, err, r.OutScalars(1)[0])
	L := []int{1, 16, 31, 32, 33, 64, 255, 256, 300, 1000, 8159, 8160}[c.Int(12)]
	b, err := o.OutputByteString(L)
	c.Check(err == nil && bytes.Equal(b, r.OutBytes(L)), "OutputByteString", "OutputByteString(%d) = %x (%v) want %x", L, sha(b, 40), err, sha(r.OutBytes(L), 40))
	if c.Int(4) == 0 {
		p, err := o.OutputPoint(K)
		c.Check(err == nil && peq(p, r.OutPoint()), "OutputPoint", "OutputPoint = %v (%v) want %x", p, err, r.OutPoint().Compressed())
		c.Ev("point", r.Dst, r.Input())
	}
	c.Ev("scalars", n, r.Dst, r.Input())
	c.Ev("bytes", L, r.Dst, r.Input())
}

func c06outputs(c *C) {
	dst := roDst(c)
	n := 1 + c.Int(8)
	if c.Int(20) == 0 {
		n = 40 + c.Int(60)
	}
	seen := map[string]bool{}
	ins := []roIn{}
	for len(ins) < n {
		nm := roName(c)
		if !seen[nm] {
			seen[nm] = true
			ins = append(ins, roInput(c, nm))
		}
	}
	model := ref.NewRO(dst)
	for _, in := range ins {
		in.mod(model)
	}
	var pts []Pt
	base := fmt.Sprintf("pts%d", c.Int(1000))
	if c.Int(3) == 0 {
		for i := 0; i < 1+c.Int(13); i++ {
			pts = append(pts, c.Point())
		}
		for i, p := range pts {
			model.Point(fmt.Sprintf("%s[%d]", base, i), p)
		}
	}
	for rep := 0; rep < 2; rep++ {
		o := ro.NewRandomOracle(dst)
		order := c.R.Perm(len(ins))
		at := c.Int(len(ins) + 1)
		addPts := func() {
			lp := make([]curve.EccPoint, len(pts))
			for i := range pts {
				lp[i] = P(pts[i])
			}
			c.Check(o.AddPoints(base, lp) == nil, "AddPoints", "AddPoints refused")
		}
		for k, i := range order {
			if k == at {
				addPts()
			}
			if err := ins[i].add(o); err != nil {
				c.Fail("absorb", "input %q (%s) refused: %v", ins[i].name, ins[i].desc, err)
			}
		}
		if at == len(ins) {
			addPts()
		}
		checkRO(c, o, model)
		checkRO(c, o, model) // repeated outputs are the same
	}
	c.Obs("point-list inputs", len(pts))
	c.Note("dst %q, %d inputs, first %s", dst, n, ins[0].desc)
}

func c06refuse(c *C) {
	dst := roDst(c)
	o := ro.NewRandomOracle(dst)
	for _, f := range []func() error{
		func() error { _, e := o.OutputScalar(K); return e },
		func() error { _, e := o.OutputScalars(K, 2); return e },
		func() error { _, e := o.OutputByteString(32); return e },
		func() error { _, e := o.OutputPoint(K); return e },
	} {
		c.Check(f() != nil, "empty-oracle", "an oracle without inputs produced an output")
		c.Ev("empty", dst)
	}
	model := ref.NewRO(dst)
	var names []string
	for i := 0; i < 1+c.Int(4); i++ {
		in := roInput(c, fmt.Sprintf("%d-%s", i, "x"))
		c.Check(in.add(o) == nil, "absorb", "input refused: %s", in.desc)
		in.mod(model)
		names = append(names, in.name)
	}
	for k := 0; k < 4; k++ {
		nm := ""
		what := "empty name"
		switch c.Int(3) {
		case 1:
			nm = string(c.Bytes(256 + c.Int(300)))
			what = "long name"
		case 2:
			nm = names[c.Int(len(names))]
			what = "duplicate name"
		}
		in := roInput(c, nm)
		c.Check(in.add(o) != nil, "refuse", "%s (length %d) accepted", what, len(nm))
		c.Obs("refused "+what, 1)
		c.Ev("refuse", nm, in.desc)
	}
	checkRO(c, o, model)
	_, err := o.OutputByteString(8161 + c.Int(5000))
	c.Check(err != nil, "too-long", "output longer than 8160 bytes not refused")
	_, err = o.OutputScalars(K, 171+c.Int(20))
	c.Check(err != nil, "too-long", "more scalars than 8160 bytes not refused")
	checkRO(c, o, model)
}

// c06separate: two oracles differing in exactly one respect differ in output.
func c06separate(c *C) {
	dst := roDst(c)
	v := c.Bytes(roLen(c))
	w := c.Bytes(c.Int(300))
	build := func(dst, n1, n2 string, t1, t2 byte, v1, v2 []byte) []byte {
		o := ro.NewRandomOracle(dst)
		if e := o.AddInput(n1, v1, ro.RandomOracleInputType(t1)); e != nil {
			c.Fail("absorb", "input of length %d refused: %v", len(v1), e)
		}
		if e := o.AddInput(n2, v2, ro.RandomOracleInputType(t2)); e != nil {
			c.Fail("absorb", "input of length %d refused: %v", len(v2), e)
		}
		b, e := o.OutputByteString(32)
		c.Check(e == nil, "OutputByteString", "%v", e)
		return b
	}
	base := build(dst, "a", "b", 1, 1, v, w)
	diff := func(what string, b []byte) {
		c.Check(!bytes.Equal(base, b), "binding", "changing %s does not change the output (value length %d)", what, len(v))
		c.Ev(what, dst, v, w)
		c.Obs("distinguished by "+what, 1)
	}
	diff("separator", build(dst+"x", "a", "b", 1, 1, v, w))
	diff("name", build(dst, "a", "c", 1, 1, v, w))
	diff("type", build(dst, "a", "b", byte(2+c.Int(3)), 1, v, w))
	if len(v) > 0 {
		u := append([]byte{}, v...)
		u[c.Int(len(u))] ^= byte(1 << uint(c.Int(8)))
		diff("value bit", build(dst, "a", "b", 1, 1, u, w))
		u = append([]byte{}, v...)
		u[len(u)-1] ^= 1
		diff("last value bit", build(dst, "a", "b", 1, 1, u, w))
		for what, u := range adVariants(c, v) {
			diff("value: "+what, build(dst, "a", "b", 1, 1, u, w))
		}
		diff("truncation", build(dst, "a", "b", 1, 1, v[:len(v)-1], w))
		// move the boundary between the two values
		diff("boundary", build(dst, "a", "b", 1, 1, v[:len(v)-1], append([]byte{v[len(v)-1]}, w...)))
	}
	diff("appended zero", build(dst, "a", "b", 1, 1, append(append([]byte{}, v...), 0), w))
	if !bytes.Equal(v, w) {
		diff("swapped values", build(dst, "a", "b", 1, 1, w, v))
	}
	// moving a byte from name to value, or absorbing one encoding inside another
	o := ro.NewRandomOracle(dst)
	o.AddInput("a", v, 1)
	b, _ := o.OutputByteString(32)
	diff("missing input", b)
	o.AddInput("b", w, 1)
	b, _ = o.OutputByteString(32)
	c.Check(bytes.Equal(b, base), "OutputByteString", "output after a former output differs")
	b2, _ := o.OutputByteString(33)
	diff("output length", b2[:32])
}

// c06lengths sweeps value lengths around every length-byte boundary.
func c06lengths(c *C) {
	L := c.I
	if L >= 300 {
		L = []int{511, 512, 513, 1023, 1024, 4095, 4096, 65535, 65536, 65537, 131072, 1 << 20}[c.Int(12)]
	}
	v := c.Bytes(L)
	o := ro.NewRandomOracle("len")
	if e := o.AddBytesString("v", v); e != nil {
		c.Fail("absorb", "value of length %d refused: %v", L, e)
	}
	r := ref.NewRO("len").Bytes("v", v)
	b, e := o.OutputByteString(32)
	c.Check(e == nil && bytes.Equal(b, r.OutBytes(32)), "OutputByteString", "wrong output for value length %d", L)
	nm := string(c.Bytes(1 + c.I%255))
	o = ro.NewRandomOracle("len")
	c.Check(o.AddUint64(nm, uint64(c.I)) == nil, "absorb", "name of length %d refused", len(nm))
	b, e = o.OutputByteString(32)
	c.Check(e == nil && bytes.Equal(b, ref.NewRO("len").Int(nm, uint64(c.I)).OutBytes(32)), "OutputByteString", "wrong output for name length %d", len(nm))
	c.Ev(L, len(nm))
}

// ---------- C07 ----------

func firstBytes(s *seed.Seed, n int) []byte {
	b := make([]byte, n)
	s.Rng().FillUint8(b)
	return b
}

type fixedStream struct{ b []byte }

func (f *fixedStream) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ f.b[0]
		f.b = f.b[1:]
	}
}

func c07seed(c *C) {
	in := c.AD()
	label := []string{"", "a", "ic-crypto-seed-from-bytes", string(c.Bytes(254)), string(c.Bytes(255)), string(c.Bytes(256)), string(c.Bytes(300)), fmt.Sprint(c.Int(1000))}[c.Int(8)]
	if c.Long() && c.Int(3) == 0 {
		label = string(c.LongBytes())
	}
	n := 1 + c.Int(200)
	chk := func(what string, s *seed.Seed, val []byte) {
		got := firstBytes(s, n)
		want := ref.ChaCha20Stream(val, n)
		c.Check(bytes.Equal(got, want), what, "%s: stream %x want %x", what, sha(got, 32), sha(want, 32))
		c.Check(bytes.Equal(firstBytes(s, n), want), what, "%s: second generator of the same seed differs", what)
		c.Ev(what, val, n)
	}
	v := ref.SeedValue(in, label)
	s := seed.NewSeed(in, label)
	chk("NewSeed", s, v)
	vb := ref.SeedValue(in, "ic-crypto-seed-from-bytes")
	chk("FromBytes", seed.FromBytes(in), vb)
	// derivation chains
	cur, cv := s, v
	for d := 0; d < 1+c.Int(4); d++ {
		l := []string{"x", "", "label-" + fmt.Sprint(c.Int(50)), string(c.Bytes(c.Int(400)))}[c.Int(4)]
		cur, cv = cur.Derive(l), ref.SeedValue(cv, l)
		chk("Derive", cur, cv)
	}
	chk("NewSeed", s, v) // deriving does not disturb the parent
	// from generator: consumes exactly 32 bytes
	rng := seed.FromBytes(in).Rng()
	stream := ref.ChaCha20Stream(vb, 160)
	chk("FromRng", seed.FromRng(rng), ref.SeedValue(stream[:32], "ic-crypto-seed-from-rng"))
	chk("FromRng", seed.FromRng(rng), ref.SeedValue(stream[32:64], "ic-crypto-seed-from-rng"))
	raw := c.Bytes(64)
	fs := &fixedStream{append([]byte{}, raw...)}
	chk("FromRandomness", seed.FromRandomness(fs), ref.SeedValue(raw[:32], "ic-crypto-seed-from-randomness"))
	// distinct labels
	c.Check(!bytes.Equal(firstBytes(s.Derive("l1"), 32), firstBytes(s.Derive("l2"), 32)), "label", "labels l1 and l2 give the same seed")
	c.Note("input %d bytes, label %d bytes", len(in), len(label))
}

func c07stream(c *C) {
	key := c.Bytes(32)
	n := 600 + c.Int(600)
	want := ref.ChaCha20Stream(key, n)
	r := rand.Rand(rand.NewChaCha20(key))
	var split []string
	pos := 0
	for pos+80 < n {
		k := c.Int(6)
		switch k {
		case 0:
			v := r.Uint32()
			w := uint32(new(big.Int).SetBytes(want[pos : pos+4]).Uint64())
			c.Check(v == w, "Uint32", "Uint32 at offset %d = %08x want %08x (after %v)", pos, v, w, split)
			pos += 4
		case 1:
			v := r.Uint64()
			w := new(big.Int).SetBytes(want[pos : pos+8]).Uint64()
			c.Check(v == w, "Uint64", "Uint64 at offset %d = %016x want %016x (after %v)", pos, v, w, split)
			pos += 8
		case 2, 3:
			l := c.Int(70)
			b := make([]byte, l)
			if k == 3 {
				b = c.Bytes(l) // dirty destination
			}
			r.FillUint8(b)
			c.Check(bytes.Equal(b, want[pos:pos+l]), "FillUint8", "FillUint8(%d bytes, dirty=%v) at offset %d = %x want %x", l, k == 3, pos, b, want[pos:pos+l])
			pos += l
		case 4:
			l := c.Int(70)
			src := c.Bytes(l)
			keep := append([]byte{}, src...)
			dst := c.Bytes(l)
			r.XORKeyStream(dst, src)
			for i := range dst {
				c.Check(dst[i] == keep[i]^want[pos+i], "XORKeyStream", "XORKeyStream wrong at %d", pos+i)
			}
			c.Check(bytes.Equal(src, keep), "XORKeyStream", "XORKeyStream changed its source")
			pos += l
		case 5:
			r.FillUint8(nil)
		}
		split = append(split, fmt.Sprint(k))
	}
	c.Ev(key, fmt.Sprint(split))
	c.Obs("requests", len(split))
}

// scripted generator: counts requests and returns chosen blocks.
type scripted struct {
	blocks [][]byte
	next   int
	fills  int
	tail   rand.Rand
}

func (s *scripted) take(n int) []byte {
	if s.next < len(s.blocks) && n == 32 {
		s.next++
		return s.blocks[s.next-1]
	}
	b := make([]byte, n)
	s.tail.FillUint8(b)
	return b
}
func (s *scripted) Uint32() uint32 { return uint32(new(big.Int).SetBytes(s.take(4)).Uint64()) }
func (s *scripted) Uint64() uint64 { return new(big.Int).SetBytes(s.take(8)).Uint64() }
func (s *scripted) FillUint8(b []uint8) {
	s.fills++
	copy(b, s.take(len(b)))
}
func (s *scripted) XORKeyStream(dst, src []byte) {
	t := s.take(len(src))
	for i := range src {
		dst[i] = src[i] ^ t[i]
	}
}

func c07random(c *C) {
	// plain: first block below n of the stream, in order
	sd := c.Bytes(32)
	val := ref.SeedValue(sd, "ic-crypto-seed-from-bytes")
	got := curve.Scalar.FromSeed(K, seed.FromBytes(sd))
	stream := ref.ChaCha20Stream(val, 320)
	c.Check(seq(got, new(big.Int).SetBytes(stream[:32])), "FromSeed", "FromSeed = %x want %x", sv(got), stream[:32])
	rng := seed.FromBytes(sd).Rng()
	for i := 0; i < 5; i++ {
		g := curve.Scalar.Random(K, rng)
		c.Check(seq(g, new(big.Int).SetBytes(stream[32*i:32*i+32])), "Random", "Random number %d = %x want %x", i, sv(g), stream[32*i:32*i+32])
	}
	// rejection: k blocks not below n, then one below
	k := c.Int(6)
	var blocks [][]byte
	top := new(big.Int).Lsh(bi(1), 256)
	span := new(big.Int).Sub(top, ref.N)
	for i := 0; i < k; i++ {
		v := new(big.Int).Set(ref.N)
		switch c.Int(4) {
		case 0:
		case 1:
			v = new(big.Int).Sub(top, bi(1))
		case 2:
			v.Add(v, bi(int64(c.Int(4))))
		default:
			v.Add(v, c.Uniform(span))
		}
		blocks = append(blocks, ref.Bytes32Raw(v))
	}
	good := c.Scalar()
	blocks = append(blocks, ref.Bytes32(good))
	nextV := c.Scalar()
	blocks = append(blocks, ref.Bytes32(nextV))
	s := &scripted{blocks: blocks, tail: rand.NewChaCha20(sd)}
	g := curve.Scalar.Random(K, s)
	c.Check(seq(g, good), "Random-rejection", "after %d blocks not below n, Random = %x, want the next block %x", k, sv(g), good)
	g = curve.Scalar.Random(K, s)
	c.Check(seq(g, nextV), "Random-rejection", "Random consumed more than its block: next value %x want %x", sv(g), nextV)
	c.Obs("rejected blocks", k)
	c.Ev(sd, k, good)
	c.Note("%d rejected blocks before %x", k, good)
}

// c07unbiased: coarse distribution monitors over library-drawn scalars.
func c07unbiased(c *C) {
	rng := seed.FromBytes(c.Bytes(32)).Rng()
	const N = 20000
	var bits [256]int
	for i := 0; i < N; i++ {
		b := curve.Scalar.Random(K, rng).Serialize()
		for j := 0; j < 256; j++ {
			bits[j] += int(b[j/8]>>uint(7-j%8)) & 1
		}
	}
	for j, n := range bits {
		c.Check(n > N/2-600 && n < N/2+600, "bias", "bit %d set %d times of %d", j, n, N)
	}
	c.Ev(c.I)
	c.Obs("scalars drawn", N)
}
