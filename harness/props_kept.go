package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/PlatONnetwork/tecdsa/curve"
	kd "github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"

	"verif/harness/ref"
)

// call is one computation of a history; it makes its inputs anew every time.
type call struct {
	name string
	f    func() []interface{}
}

// keptResults runs a history of the calls: the same call gives the same result at
// every place of it, and a result that its caller still holds is not changed by
// what is computed later, in the same goroutine or in another one.
func keptResults(c *C, calls []call, rounds int) {
	want := make([]string, len(calls))
	for i := range calls {
		want[i] = resultText(calls[i].f())
	}
	clobber := c.Int(3) == 0 // results which are byte strings belong to the caller
	run := func(order []int) string {
		type held struct {
			i int
			x []interface{}
		}
		var h []held
		for pos, i := range order {
			x := calls[i].f()
			if t := resultText(x); t != want[i] {
				return fmt.Sprintf("call %d, %s, returns something else than the first time:\n  first: %s\n  now:   %s", pos, calls[i].name, firstDiff(want[i], t), firstDiff(t, want[i]))
			}
			if clobber && pos%3 == 0 {
				for _, y := range x {
					if b, ok := y.([]byte); ok {
						for k := range b {
							b[k] ^= 0x5a
						}
					}
				}
				continue
			}
			h = append(h, held{i, x})
		}
		for _, k := range h {
			if t := resultText(k.x); t != want[k.i] {
				return fmt.Sprintf("the result of %s was changed by later calls:\n  then: %s\n  now:  %s", calls[k.i].name, firstDiff(want[k.i], t), firstDiff(t, want[k.i]))
			}
		}
		return ""
	}
	orders := make([][]int, 1+c.Int(4))
	for w := range orders {
		for j := 0; j < rounds; j++ {
			orders[w] = append(orders[w], c.Int(len(calls)))
		}
	}
	msgs := make([]string, len(orders))
	var wg sync.WaitGroup
	for w := range orders {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					msgs[w] = fmt.Sprintf("crash: %v", r)
				}
			}()
			msgs[w] = run(orders[w])
		}()
	}
	wg.Wait()
	for w, m := range msgs {
		if m != "" {
			c.Fail("kept", "history %d of %d: %s", w, len(orders), m)
		}
		for pos, i := range orders[w] {
			c.Ev(c.I, w, pos, i)
		}
	}
	c.Obs("histories of calls whose results are kept", len(orders))
	c.Note("%d calls, %d histories of %d, clobber %v", len(calls), len(orders), rounds, clobber)
}

// variants calls f for a few draws.
func variants(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		f(i)
	}
}

func c04kept(c *C) {
	var cs []call
	variants(3, func(int) {
		p, x, f := c.Point(), c.Scalar(), c.Uniform(ref.P)
		cs = append(cs,
			call{fmt.Sprintf("the encodings of the point %v", p), func() []interface{} {
				q := P(p)
				return res(q.Serialize(), q.SerializeTagged(), q.SerializeUncompressed(), q.AffineX().AsBytes())
			}},
			call{fmt.Sprintf("the encodings of the scalar %x", x), func() []interface{} {
				y := S(x)
				return res(y.Serialize(), y.SerializeTagged())
			}},
			call{fmt.Sprintf("the encoding of the field element %x", f), func() []interface{} { return res(F(f).AsBytes()) }},
			call{fmt.Sprintf("decoding %x", p.Compressed()), func() []interface{} {
				q, err := curve.Point.Deserialize(K, p.Compressed())
				return res(q, isErr(err))
			}},
			call{fmt.Sprintf("decoding the scalar %x", x), func() []interface{} {
				q, err := curve.Scalar.Deserialize(K, ref.Bytes32(x))
				return res(q, isErr(err))
			}})
	})
	keptResults(c, cs, 30)
}

func c05kept(c *C) {
	var cs []call
	ls := []int{1, 16, 31, 32, 33, 48, 63, 64, 65, 96, 128, 192, 255, 256, 257, 1000}
	variants(3, func(int) {
		m, d := c05msg(c), c05dst(c)
		for k := 0; k < 3; k++ {
			n := ls[c.Int(len(ls))]
			cs = append(cs, call{fmt.Sprintf("XMD to %d bytes", n), func() []interface{} {
				b, err := seed.ExpandMessageXmd(m, d, n)
				return res(b, isErr(err))
			}})
		}
		n, k := 1+c.Int(4), 1+c.Int(4)
		u := c.Uniform(ref.P)
		cs = append(cs,
			call{fmt.Sprintf("HashToField(%d)", n), func() []interface{} {
				f, err := curve.HashToField(n, K, m, d)
				return res(f, isErr(err))
			}},
			call{fmt.Sprintf("HashToSeveralScalar(%d)", k), func() []interface{} {
				f, err := curve.Scalar.HashToSeveralScalar(K, k, m, d)
				return res(f, isErr(err))
			}},
			call{"HashToPoint", func() []interface{} {
				p, err := curve.Point.HashToPoint(K, m, d)
				return res(p, isErr(err))
			}},
			call{"MapToCurve", func() []interface{} {
				p, err := curve.MapToCurve(F(u))
				return res(p, isErr(err))
			}})
	})
	keptResults(c, cs, 24)
}

func c06kept(c *C) {
	var cs []call
	variants(3, func(int) {
		dst := roDst(c)
		seen := map[string]bool{}
		var ins []roIn
		for len(ins) < 1+c.Int(3) {
			nm := roName(c)
			if !seen[nm] {
				seen[nm] = true
				ins = append(ins, roInput(c, nm))
			}
		}
		n, k := 1+c.Int(300), 1+c.Int(4)
		mk := func() *ro.RandomOracle {
			o := ro.NewRandomOracle(dst)
			for _, in := range ins {
				in.add(o)
			}
			return o
		}
		for _, l := range []int{n, 32, 48, 64} {
			l := l
			cs = append(cs, call{fmt.Sprintf("OutputByteString(%d)", l), func() []interface{} {
				b, err := mk().OutputByteString(l)
				return res(b, isErr(err))
			}})
		}
		cs = append(cs,
			call{fmt.Sprintf("OutputScalars(%d)", k), func() []interface{} {
				x, err := mk().OutputScalars(K, k)
				return res(x, isErr(err))
			}},
			call{"OutputPoint", func() []interface{} {
				x, err := mk().OutputPoint(K)
				return res(x, isErr(err))
			}})
	})
	keptResults(c, cs, 24)
}

func c07kept(c *C) {
	var cs []call
	variants(3, func(int) {
		in, l, l2 := c.ADMax(300), string(c.Bytes(c.Int(40))), string(c.Bytes(c.Int(300)))
		s := seed.NewSeed(in, l)
		n := 1 + c.Int(200)
		cs = append(cs,
			call{"NewSeed", func() []interface{} { return res(seed.NewSeed(in, l), firstBytes(s, n)) }},
			call{"Derive", func() []interface{} { return res(s.Derive(l2), s.Derive(l2+"'"), s.Derive(l2).Derive(l)) }},
			call{"FromBytes", func() []interface{} { return res(seed.FromBytes(in), curve.Scalar.FromSeed(K, s)) }},
			call{"FromRng", func() []interface{} {
				r := s.Rng()
				return res(seed.FromRng(r), seed.FromRng(r), curve.Scalar.Random(K, r))
			}})
	})
	keptResults(c, cs, 24)
}

func c11kept(c *C) {
	var cs []call
	variants(3, func(int) {
		kind := []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen}[c.Int(2)]
		p := genPol(c, kind, 1+c.Int(5), 0, nil, nil)
		i := NI(c.WideIndex())
		cs = append(cs,
			call{"creating a commitment", func() []interface{} {
				if kind == poly.Simple {
					m, err := poly.SimpleCM.Create(mkPoly(p.a), len(p.a))
					return res(m, isErr(err))
				}
				m, err := poly.PedersenCM.Create(mkPoly(p.a), mkPoly(p.b), len(p.a))
				return res(m, isErr(err))
			}},
			call{"reading a commitment", func() []interface{} {
				m := p.raw()
				b, err := m.Serialize()
				return res(m.StableRepresentation(), b, isErr(err), m.EvaluateAt(i), m.ConstantTerm(), m.Points())
			}},
			call{"an opening", func() []interface{} {
				o, err := p.raw().ReturnOpeningIfConsistent(i, p.opening(i))
				return res(o, isErr(err))
			}})
	})
	keptResults(c, cs, 24)
}

func c24kept(c *C) {
	var cs []call
	variants(3, func(int) {
		path, x := genPath(c), genMaster(c)
		b := c.Bytes(1 + c.Int(6))
		cs = append(cs,
			call{fmt.Sprintf("DeriveTweak of %x along %x", x, path), func() []interface{} {
				t, ch, err := libPath(path).DeriveTweak(P(ref.MulG(x)))
				return res(t, ch, isErr(err))
			}},
			call{fmt.Sprintf("Next of %x", b), func() []interface{} {
				d := kd.DerivationIndex(append([]byte{}, b...))
				return res([]byte(d.Next()), []byte(d.Next().Next()))
			}})
	})
	keptResults(c, cs, 24)
}

// c07interleaved: several generators are in use at the same time, some of them of
// the same seed; each gives its own key stream, in requests of all sizes.
func c07interleaved(c *C) {
	n := 20000
	if c.Long() {
		n = 600000
	}
	type gen struct {
		r    rand.Rand
		want []byte
		pos  int
	}
	var gs []*gen
	var keys [][]byte
	for k := 1 + c.Int(4); k > 0; k-- {
		key := c.Bytes(32)
		if len(keys) > 0 && c.Int(3) == 0 {
			key = keys[c.Int(len(keys))]
		}
		keys = append(keys, key)
		g := &gen{want: ref.ChaCha20Stream(key, n)}
		if c.Bool() {
			g.r = rand.NewChaCha20(key)
		} else {
			g.r, g.want = seed.FromBytes(key).Rng(), ref.ChaCha20Stream(ref.SeedValue(key, "ic-crypto-seed-from-bytes"), n)
		}
		gs = append(gs, g)
	}
	size := func(left int) int {
		l := c.Int(130)
		switch {
		case c.Int(3) > 0:
		case c.Long():
			l = c.LongLen() + c.Int(70)
		default:
			l = []int{63, 64, 65, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 3000}[c.Int(16)]
		}
		if l > left {
			l = left
		}
		return l
	}
	count := 0
	for step := 0; step < 60; step++ {
		g := gs[c.Int(len(gs))]
		left := len(g.want) - g.pos
		if left < 8 {
			continue
		}
		w := g.want[g.pos:]
		switch c.Int(5) {
		case 0:
			v := g.r.Uint32()
			c.Check(v == uint32(w[0])<<24|uint32(w[1])<<16|uint32(w[2])<<8|uint32(w[3]), "Uint32", "Uint32 at offset %d wrong", g.pos)
			g.pos += 4
		case 1:
			var v uint64
			for _, b := range w[:8] {
				v = v<<8 | uint64(b)
			}
			c.Check(g.r.Uint64() == v, "Uint64", "Uint64 at offset %d wrong", g.pos)
			g.pos += 8
		case 2:
			l := size(left)
			src := c.Bytes(l)
			dst := src
			keep := append([]byte{}, src...)
			if c.Bool() {
				dst = c.Bytes(l)
			}
			g.r.XORKeyStream(dst, src)
			for i := range dst {
				if dst[i] != keep[i]^w[i] {
					c.Fail("XORKeyStream", "XORKeyStream of %d bytes at offset %d wrong at byte %d", l, g.pos, i)
				}
			}
			g.pos += l
		default:
			l := size(left)
			buf := make([]byte, l+c.Int(20)) // spare capacity is not touched
			if c.Bool() {
				buf = c.Bytes(len(buf))
			}
			tail := append([]byte{}, buf[l:]...)
			g.r.FillUint8(buf[:l])
			if !bytes.Equal(buf[:l], w[:l]) {
				c.Fail("FillUint8", "FillUint8 of %d bytes at offset %d (generator of %d): %s want %s", l, g.pos, len(gs), sha(buf[:l], 32), sha(w[:l], 32))
			}
			c.Check(bytes.Equal(buf[l:], tail), "FillUint8", "FillUint8 writes behind its buffer")
			g.pos += l
			if l > 4096 {
				c.Obs("requests over 4096 bytes", 1)
			}
		}
		count++
		c.Ev(keys[0], step)
	}
	c.Obs("requests of interleaved generators", count)
}
