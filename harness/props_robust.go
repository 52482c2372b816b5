package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"time"

	"github.com/fxamacker/cbor/v2"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	kd "github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C27", MinEval: 5000,
		Rule: "one evaluation gives one byte string to one decoder, or one out-of-range parameter to one operation, and decides crash, hang, error and re-encoding; distinct by decoder and string, or by operation and parameters",
		Gens: []core.Gen{
			{Name: "bytes", Quick: 900, Thorough: 60000, Run: c27bytes},
			{Name: "bombs", Quick: 60, Thorough: 2000, Run: c27bombs},
			{Name: "exhaustive", Quick: 24, Thorough: 400, Run: c27exhaustive},
			{Name: "params", Quick: 60, Thorough: 3000, Run: c27params},
			{Name: "counts", Quick: 60, Thorough: 3000, Run: c27counts},
			{Name: "shapes", Quick: 8, Thorough: 80, Run: c27shapes},
		}})
}

// decoder is one decoding entry point: dec decodes, enc encodes the value
// decoded, canonical means that only enc(dec(b)) == b may be accepted.
type decoder struct {
	name      string
	canonical bool
	dec       func(b []byte) (interface{}, error)
	enc       func(x interface{}) ([]byte, error)
	use       func(x interface{}) // touches the decoded value
}

func libDecoders() []decoder {
	scal := func(x interface{}) ([]byte, error) { return x.(curve.EccScalar).Serialize(), nil }
	scalT := func(x interface{}) ([]byte, error) { return x.(curve.EccScalar).SerializeTagged(), nil }
	pnt := func(x interface{}) ([]byte, error) { return x.(curve.EccPoint).Serialize(), nil }
	pntT := func(x interface{}) ([]byte, error) { return x.(curve.EccPoint).SerializeTagged(), nil }
	useS := func(x interface{}) {
		s := x.(curve.EccScalar)
		s.Clone().Add(s, s)
		s.Clone().Invert(s)
		_, _, _, _ = s.IsZero(), s.IsHigh(), s.BigInt(), s.CurveType()
		curve.Point.MulByG(s)
	}
	useP := func(x interface{}) {
		p := x.(curve.EccPoint)
		p.Clone().AddPoints(p, curve.Point.GeneratorG(K))
		p.Clone().ScalarMul(p, S(bi(3)))
		_, _, _, _ = p.IsInfinity(), p.SerializeUncompressed(), p.AffineX().AsBytes(), p.AffineY().AsBytes()
	}
	ds := []decoder{
		{"Scalar.Deserialize", true, func(b []byte) (interface{}, error) { return nilOr(curve.Scalar.Deserialize(K, b)) }, scal, useS},
		{"Scalar.DeserializeTagged", true, func(b []byte) (interface{}, error) { return nilOr(curve.Scalar.DeserializeTagged(b)) }, scalT, useS},
		{"Field.FromBytes", true, func(b []byte) (interface{}, error) { return nilOr(curve.Field.FromBytes(K, b)) }, func(x interface{}) ([]byte, error) { return x.(curve.EccFieldElement).AsBytes(), nil }, func(x interface{}) {
			f := x.(curve.EccFieldElement)
			curve.Field.Zero(K).Invert(f)
			curve.Field.Zero(K).Sqrt(f)
			curve.Field.Zero(K).Square(f)
		}},
		{"Point.Deserialize", true, func(b []byte) (interface{}, error) { return nilOr(curve.Point.Deserialize(K, b)) }, pnt, useP},
		{"Point.DeserializeTagged", true, func(b []byte) (interface{}, error) { return nilOr(curve.Point.DeserializeTagged(K, b)) }, pntT, useP},
		{"Point.DeserializeAnyFormat", false, func(b []byte) (interface{}, error) { return nilOr(curve.Point.DeserializeAnyFormat(K, b)) }, pnt, useP},
		{"MEGa PublicKey.Deserialize", true, func(b []byte) (interface{}, error) { return nilOr(mega.PublicKey.Deserialize(K, b)) }, func(x interface{}) ([]byte, error) { return x.(*mega.MEGaPublicKey).Serialize(), nil }, func(x interface{}) { useP(x.(*mega.MEGaPublicKey).PublicPoint()) }},
		{"MEGa PrivateKey.Deserialize", true, func(b []byte) (interface{}, error) { return nilOr(mega.PrivateKey.Deserialize(K, b)) }, func(x interface{}) ([]byte, error) { return x.(*mega.MEGaPrivateKey).Serialize(), nil }, func(x interface{}) { x.(*mega.MEGaPrivateKey).PublicKey().Serialize() }},
		{"VerifyMegaPublicKey", true, func(b []byte) (interface{}, error) {
			if err := mega.VerifyMegaPublicKey(K, b); err != nil {
				return nil, err
			}
			return mega.PublicKey.Deserialize(K, b)
		}, func(x interface{}) ([]byte, error) { return x.(*mega.MEGaPublicKey).Serialize(), nil }, nil},
		{"CBOR scalar", false, func(b []byte) (interface{}, error) {
			var s curve.Secp256k1Scalar
			if err := s.UnmarshalCBOR(b); err != nil {
				return nil, err
			}
			return &s, nil
		}, func(x interface{}) ([]byte, error) { return x.(*curve.Secp256k1Scalar).MarshalCBOR() }, func(x interface{}) { useS(x.(curve.EccScalar)) }},
		{"CBOR point", false, func(b []byte) (interface{}, error) {
			var s curve.Secp256k1Point
			if err := s.UnmarshalCBOR(b); err != nil {
				return nil, err
			}
			return &s, nil
		}, func(x interface{}) ([]byte, error) { return x.(*curve.Secp256k1Point).MarshalCBOR() }, func(x interface{}) { useP(x.(curve.EccPoint)) }},
		{"SEC1", true, func(b []byte) (interface{}, error) { return nilOr(curve.Encode.FromBytes(b)) }, func(x interface{}) ([]byte, error) { return x.(curve.EncodePoint).AsBytes(), nil }, func(x interface{}) {
			e := x.(curve.EncodePoint)
			_, _, _, _, _, _ = e.X(), e.Y(), e.Coordinates(), e.Len(), e.ToString(), e.Tag()
			e.Compress().AsBytes()
		}},
		{"SEC1 hex", false, func(b []byte) (interface{}, error) { return nilOr(curve.Encode.FromStr(string(b))) }, func(x interface{}) ([]byte, error) { return []byte(x.(curve.EncodePoint).ToString()), nil }, nil},
		{"Opening.Deserialize", false, func(b []byte) (interface{}, error) { return nilOr(poly.Commitment.Deserialize(b)) }, func(x interface{}) ([]byte, error) { return x.(poly.CommitmentOpening).Serialize() }, func(x interface{}) {
			o := x.(poly.CommitmentOpening)
			o.ToCommitmentOpeningBytes().ToCommitmentOpening()
			libCM(poly.Simple, []Pt{ref.G}).CheckOpening(0, o)
			libCM(poly.Pedersen, []Pt{ref.G, ref.H}).CheckOpening(1, o)
			dealings.Secret.From(o.ToCommitmentOpeningBytes(), nil)
		}},
		{"Opening.FromBytes", false, func(b []byte) (interface{}, error) { return nilOr(poly.Commitment.FromBytes(b)) }, func(x interface{}) ([]byte, error) { return x.(poly.CommitmentOpening).Serialize() }, nil},
		{"DerivePublicKey", true, func(b []byte) (interface{}, error) {
			pk, err := sign.DerivePublicKey(&kd.MasterEcdsaPublicKey{PublicKey: b}, kd.New(nil))
			if err != nil {
				return nil, err
			}
			return pk.PublicKey, nil
		}, func(x interface{}) ([]byte, error) { return x.([]byte), nil }, nil},
	}
	if deserializeCommitment != nil {
		ds = append(ds, decoder{"Commitment.Deserialize", false, func(b []byte) (interface{}, error) { return nilOr(deserializeCommitment(b)) }, func(x interface{}) ([]byte, error) { return x.(poly.PolynomialCommitment).Serialize() }, func(x interface{}) {
			m := x.(poly.PolynomialCommitment)
			_, _, _, _ = m.ConstantTerm(), m.EvaluateAt(5), m.Len(), m.StableRepresentation()
			_, _, _ = m.CurveType(), m.Type(), m.Clone()
			m.CheckOpening(3, mkOpening(poly.Simple, bi(1), nil))
			m.CheckOpening(3, mkOpening(poly.Pedersen, bi(1), bi(2)))
		}})
	}
	return ds
}

// nilOr turns a decoder's typed results into (interface, error) so that a typed
// nil with nil error is seen as such.
func nilOr[T any](x T, err error) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

// within fails when f takes longer than any decoder may.
func within(c *C, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(90 * time.Second):
		c.Fail("hang", "%s does not return", what)
	}
}

// offerBytes decides one string at one decoder.
func offerBytes(c *C, d *decoder, b []byte) bool {
	in := append([]byte{}, b...)
	var x interface{}
	var err error
	what := fmt.Sprintf("%s of %d bytes %x", d.name, len(b), sha(b, 200))
	c.NoPanic("decode-crash", what, func() { x, err = d.dec(in) })
	c.Check(bytes.Equal(in, b), "input-changed", "%s changed its input", what)
	c.Ev(d.name, b)
	if err != nil {
		return false
	}
	if insp.Nil(x) {
		c.Fail("decode-nil", "%s returns neither value nor error", what)
	}
	c.Obs("accepted by "+d.name, 1)
	var again []byte
	c.NoPanic("encode-crash", what, func() { again, err = d.enc(x) })
	c.Check(err == nil, "re-encode", "%s: the value cannot be encoded: %v", what, err)
	if d.canonical {
		c.Check(bytes.Equal(again, b), "re-encode", "%s: accepted, but encodes to %x", what, again)
	} else {
		back := d.dec
		if p, ok := x.(curve.EccPoint); ok && p.IsInfinity() && d.name == "Point.DeserializeAnyFormat" {
			// SEC1 infinity is one byte, the fixed-size encoding is not SEC1
			back = func(b []byte) (interface{}, error) { return nilOr(curve.Point.Deserialize(K, b)) }
		}
		y, err := back(again)
		c.Check(err == nil, "re-encode", "%s: the encoding %x of the value is refused: %v", what, again, err)
		c.Check(insp.Canon(y) == insp.Canon(x), "re-encode", "%s: value changes when encoded and decoded again", what)
		third, _ := d.enc(y)
		c.Check(bytes.Equal(third, again), "re-encode", "%s: encoding not stable", what)
	}
	if d.use != nil {
		c.NoPanic("use-crash", "using the result of "+what, func() { d.use(x) })
	}
	return true
}

// validStrings are encodings of every kind.
func validString(c *C) []byte {
	var b []byte
	switch c.Int(12) {
	case 0:
		return ref.Bytes32(c.Scalar())
	case 1:
		return append([]byte{1}, ref.Bytes32(c.Scalar())...)
	case 2:
		return c.Point().Compressed()
	case 3:
		return append([]byte{1}, c.Point().Compressed()...)
	case 4:
		return c.RandPoint().Uncompressed()
	case 5:
		b, _ = cbor.Marshal(append([]byte{1}, ref.Bytes32(c.Scalar())...))
	case 6:
		b, _ = cbor.Marshal(append([]byte{1}, c.Point().Compressed()...))
	case 7, 8:
		b, _ = mkOpening(kindOf(c), c.Scalar(), c.Scalar()).Serialize()
	case 9, 10:
		n := 1 + c.Int(4)
		ps := make([]Pt, n)
		for i := range ps {
			ps[i] = c.Point()
		}
		b, _ = libCM(kindOf(c), ps).Serialize()
	default:
		return []byte(hex(pointString(c)))
	}
	return b
}

// mangle applies one to several random changes.
func mangle(c *C, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + c.Int(4); k > 0; k-- {
		switch c.Int(12) {
		case 0, 1, 2:
			b = mutateEnc(c, b)
		case 3: // splice with another encoding
			o := validString(c)
			b = append(b[:c.Int(len(b)+1)], o[c.Int(len(o)+1):]...)
		case 4: // repeat a part
			if len(b) > 1 {
				i := c.Int(len(b))
				j := i + c.Int(len(b)-i)
				b = append(b[:j:j], b[i:]...)
			}
		case 5: // delete a part
			if len(b) > 1 {
				i := c.Int(len(b))
				j := i + c.Int(min(len(b)-i, 8))
				b = append(b[:i:i], b[j:]...)
			}
		case 6: // interesting byte
			if len(b) > 0 {
				b[c.Int(len(b))] = []byte{0, 1, 2, 3, 4, 5, 0x1f, 0x3f, 0x40, 0x58, 0x5f, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9b, 0x9f, 0xa0, 0xbf, 0xc0, 0xf4, 0xf6, 0xf7, 0xfb, 0xff}[c.Int(26)]
			}
		case 7: // insert
			i := c.Int(len(b) + 1)
			b = append(b[:i:i], append(c.Bytes(1+c.Int(4)), b[i:]...)...)
		case 8: // wrap as CBOR
			b, _ = cbor.Marshal(b)
		case 9: // a field of ff or 00
			if len(b) > 0 {
				i := c.Int(len(b))
				for j := i; j < len(b) && j < i+32; j++ {
					b[j] = byte(-c.Int(2))
				}
			}
		case 10: // length header
			if len(b) > 2 {
				i := c.Int(len(b))
				b[i] = b[i]&0xe0 | byte(24+c.Int(8))
			}
		case 11: // huge count
			i := c.Int(len(b) + 1)
			h := append([]byte{[]byte{0x9b, 0x5b, 0xbb, 0x7b}[c.Int(4)]}, c.Bytes(8)...)
			b = append(b[:i:i], append(h, b[i:]...)...)
		}
	}
	return b
}

// cborItem builds a random CBOR item (grammar based).
func cborItem(c *C, depth int) []byte {
	head := func(major byte, n uint64) []byte {
		switch c.Int(6) {
		case 0:
			return append([]byte{major<<5 | 27}, binary.BigEndian.AppendUint64(nil, n)...)
		case 1:
			if n < 1<<16 {
				return append([]byte{major<<5 | 25}, byte(n>>8), byte(n))
			}
		}
		if n < 24 {
			return []byte{major<<5 | byte(n)}
		} else if n < 256 {
			return []byte{major<<5 | 24, byte(n)}
		}
		return append([]byte{major<<5 | 27}, binary.BigEndian.AppendUint64(nil, n)...)
	}
	if depth <= 0 {
		return head(byte(c.Int(2)), uint64(c.Int(300)))
	}
	keys := []string{"curve_type", "curveType", "commitment_type", "type", "points", "message", "data", "CurveType", "CommitmentType", "Message", "Data", "OpeningType", "Type", ""}
	switch c.Int(9) {
	case 0:
		return head(byte(c.Int(2)), c.R.Uint64()>>uint(c.Int(64)))
	case 1:
		b := validString(c)
		return append(head(2, uint64(len(b))), b...)
	case 2:
		k := keys[c.Int(len(keys))]
		return append(head(3, uint64(len(k))), k...)
	case 3:
		n := c.Int(4)
		b := head(4, uint64(n))
		for i := 0; i < n; i++ {
			b = append(b, cborItem(c, depth-1)...)
		}
		return b
	case 4, 5:
		n := c.Int(4)
		b := head(5, uint64(n))
		for i := 0; i < n; i++ {
			k := keys[c.Int(len(keys))]
			b = append(append(b, head(3, uint64(len(k)))...), k...)
			b = append(b, cborItem(c, depth-1)...)
		}
		return b
	case 6:
		return append(head(6, uint64(c.Int(40))), cborItem(c, depth-1)...)
	case 7:
		return append([]byte{0x9f}, append(cborItem(c, depth-1), 0xff)...)
	}
	return [][]byte{{0xf4}, {0xf5}, {0xf6}, {0xf7}, {0xf9, 0x7e, 0}, {0xfa, 0, 0, 0, 1}, {0xfb, 1, 2, 3, 4, 5, 6, 7, 8}, {0xf8, 0xff}, {0x5f, 0xff}, {0xbf, 0xff}}[c.Int(10)]
}

func c27bytes(c *C) {
	ds := libDecoders()
	within(c, "decoding", func() {
		for k := 0; k < 8; k++ {
			var b []byte
			switch c.Int(6) {
			case 0:
				b = c.Bytes(c.Int(150))
			case 1:
				b = cborItem(c, 1+c.Int(4))
			case 2: // an encoding with the keys of a real object and random contents
				b = structured(c)
			default:
				b = mangle(c, validString(c))
			}
			for i := range ds {
				offerBytes(c, &ds[i], b)
			}
			if k == 0 {
				c.Note("%x to %d decoders", sha(b, 60), len(ds))
			}
		}
		v := validString(c)
		for i := range ds {
			offerBytes(c, &ds[i], v)
		}
	})
}

// structured re-encodes a real object with some of its entries replaced.
func structured(c *C) []byte {
	b, _ := mkOpening(kindOf(c), c.Scalar(), c.Scalar()).Serialize()
	if c.Bool() {
		b, _ = libCM(kindOf(c), []Pt{c.Point(), c.Point()}).Serialize()
	}
	var t map[string]cbor.RawMessage
	if cbor.Unmarshal(b, &t) != nil {
		return mangle(c, b)
	}
	var change func(b []byte, depth int) []byte
	change = func(b []byte, depth int) []byte {
		var l []cbor.RawMessage
		var inner []byte
		if cbor.Unmarshal(b, &l) == nil && len(l) > 0 && depth > 0 {
			l[c.Int(len(l))] = change(l[c.Int(len(l))], depth-1)
			out, _ := cbor.Marshal(l)
			return out
		}
		if cbor.Unmarshal(b, &inner) == nil && depth > 0 {
			if c.Bool() && cbor.Valid(inner) == nil {
				inner = change(inner, depth-1)
			} else {
				inner = mutateEnc(c, inner)
			}
			out, _ := cbor.Marshal(inner)
			return out
		}
		return cborItem(c, 1)
	}
	var keys []string
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	k := keys[c.Int(len(keys))]
	if c.Int(4) == 0 {
		t[k] = cborItem(c, 2)
	} else {
		t[k] = change(t[k], 4)
	}
	if c.Int(6) == 0 {
		delete(t, keys[c.Int(len(keys))])
	}
	for _, k := range keys {
		if m, ok := t[k]; ok && cbor.Valid(m) != nil {
			t[k] = []byte{0xf6}
		}
	}
	out, err := cbor.Marshal(t)
	if err != nil {
		return b
	}
	return out
}

// c27shapes: real objects with every small kind and curve number and every
// number of list elements.
func c27shapes(c *C) {
	ds := libDecoders()
	var objs [][]byte
	for _, kind := range []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen} {
		b, _ := mkOpening(kind, c.Scalar(), c.Scalar()).Serialize()
		objs = append(objs, b)
		b, _ = libCM(kind, []Pt{c.Point(), c.Point()}).Serialize()
		objs = append(objs, b)
	}
	b := objs[c.I%len(objs)]
	var tree map[string]interface{}
	if cbor.Unmarshal(b, &tree) != nil {
		c.Obs("encoding is not a CBOR map", 1)
		return
	}
	var ints, lists []string
	elems := map[string][]interface{}{}
	wrapped := map[string]bool{}
	for k, v := range tree {
		switch x := v.(type) {
		case uint64, int64:
			ints = append(ints, k)
		case []interface{}:
			lists, elems[k] = append(lists, k), x
		case []byte:
			var l []interface{}
			if cbor.Unmarshal(x, &l) == nil && len(l) > 0 {
				lists, elems[k], wrapped[k] = append(lists, k), l, true
			}
		}
	}
	sort.Strings(ints)
	sort.Strings(lists)
	within(c, "decoding", func() {
		for v := 0; v < 25; v++ {
			for n := 0; n <= 9; n++ {
				for _, lk := range append(lists, "") {
					t := map[string]interface{}{}
					for k, x := range tree {
						t[k] = x
					}
					for i, k := range ints {
						t[k] = []int{v % 5, v / 5}[i%2]
					}
					if lk != "" {
						var l []interface{}
						for i := 0; i < n; i++ {
							l = append(l, elems[lk][i%len(elems[lk])])
						}
						if n == 9 { // a null in a list of the right length
							l = append([]interface{}{}, elems[lk]...)
							l[c.Int(len(l))] = nil
						}
						t[lk] = l
						if wrapped[lk] {
							t[lk], _ = cbor.Marshal(l)
						}
					} else if n > 0 {
						continue
					}
					m, err := cbor.Marshal(t)
					if err != nil {
						panic(err)
					}
					for i := range ds {
						offerBytes(c, &ds[i], m)
					}
					c.Obs("shapes", 1)
				}
			}
		}
	})
	c.Note("shapes of %x", sha(b, 60))
}

// c27bombs: strings that could exhaust memory, stack or time.
func c27bombs(c *C) {
	ds := libDecoders()
	var b []byte
	switch c.I % 9 {
	case 0: // deep nesting
		b = append(bytes.Repeat([]byte{[]byte{0x81, 0xa1, 0xc1, 0x9f}[c.Int(4)]}, 1+c.Int(200000)), 0)
	case 1: // huge declared arrays, maps, strings
		b = append([]byte{[]byte{0x9b, 0xbb, 0x5b, 0x7b}[c.Int(4)]}, binary.BigEndian.AppendUint64(nil, uint64(1)<<uint(20+c.Int(44)))...)
		b = append(b, c.Bytes(c.Int(100))...)
	case 2: // the same inside a real object
		v, _ := libCM(poly.Simple, []Pt{ref.G}).Serialize()
		i := c.Int(len(v))
		h := append([]byte{[]byte{0x9b, 0xbb, 0x5b, 0x7b}[c.Int(4)]}, binary.BigEndian.AppendUint64(nil, uint64(1)<<uint(20+c.Int(44)))...)
		b = append(append(append([]byte{}, v[:i]...), h...), v[i:]...)
	case 3: // long strings
		b = c.Bytes(1 << uint(10+c.Int(11)))
	case 4: // long zeros
		b = make([]byte, 1<<uint(10+c.Int(11)))
	case 5: // many points
		n := 1 + c.Int(400)
		ps := make([]Pt, n)
		for i := range ps {
			ps[i] = ref.G
		}
		b, _ = libCM(kindOf(c), ps).Serialize()
		if c.Bool() {
			b = b[:c.Int(len(b))]
		}
	case 6: // many nulls as points or scalars
		n := 1 + c.Int(3000)
		inner, _ := cbor.Marshal(make([]interface{}, n))
		v, _ := libCM(poly.Simple, []Pt{ref.G}).Serialize()
		var t map[string]interface{}
		if cbor.Unmarshal(v, &t) == nil {
			for k, x := range t {
				switch x.(type) {
				case []byte:
					t[k] = inner
				case []interface{}:
					t[k] = make([]interface{}, n)
				}
			}
			b, _ = cbor.Marshal(t)
		}
	case 7: // repeated keys
		v, _ := mkOpening(poly.Pedersen, bi(1), bi(2)).Serialize()
		b = append(append([]byte{0xb8, 200}, bytes.Repeat(v[1:], 3)...), 0)
	default: // hex of great length
		b = bytes.Repeat([]byte("04"), 1+c.Int(100000))
	}
	within(c, "decoding a bomb", func() {
		for i := range ds {
			offerBytes(c, &ds[i], b)
		}
	})
	c.Note("%d bytes %x", len(b), sha(b, 40))
}

// c27exhaustive: every string of up to two bytes, and every single byte change
// and truncation of one encoding.
func c27exhaustive(c *C) {
	ds := libDecoders()
	if c.I == 0 {
		for i := range ds {
			offerBytes(c, &ds[i], nil)
			for a := 0; a < 256; a++ {
				offerBytes(c, &ds[i], []byte{byte(a)})
			}
		}
		c.Note("all strings of at most one byte")
		return
	}
	if c.I < 9 {
		for a := 0; a < 256; a++ {
			for x := (c.I - 1) * 32; x < c.I*32; x++ {
				for i := range ds {
					offerBytes(c, &ds[i], []byte{byte(a), byte(x)})
				}
			}
		}
		c.Note("two-byte strings ending in %d..%d", (c.I-1)*32, c.I*32-1)
		return
	}
	v := validString(c)
	if len(v) > 80 {
		v = v[:80+c.Int(len(v)-79)]
	}
	for j := 0; j <= len(v); j++ {
		for i := range ds {
			offerBytes(c, &ds[i], v[:j])
		}
	}
	m := append([]byte{}, v...)
	vals := 256
	if !c.Thorough() {
		vals = 24
	}
	for j := 0; j < min(len(v), 40); j++ {
		for a := 0; a < vals; a++ {
			m[j] = byte(a)
			if vals < 256 {
				m[j] = c.Bytes(1)[0]
			}
			for i := range ds {
				if ds[i].name == "DerivePublicKey" && a%16 != 0 {
					continue
				}
				offerBytes(c, &ds[i], m)
			}
		}
		m[j] = v[j]
	}
	c.Note("prefixes and byte changes of %x", sha(v, 60))
}

// badThresholds never fit n.
func badThresholds(c *C, n int) []int {
	return []int{0, -1, -2, -n - 1, n + 1, n + 2, 1 << 20, 1 << 31, 1 << 40, 1<<62 + 1, -1 << 62, -1 << 40, -c.Int(1000) - 1}
}

func c27params(c *C) {
	n := 1 + c.Int(4)
	com := genCommittee(c, n)
	ad := c.ADMax(100)
	refuse := func(what string, f func() error) {
		var err error
		c.NoPanic("param-crash", what, func() { err = f() })
		c.Check(err != nil, "param-accepts", "%s gives no error", what)
		c.Ev(what, c.I)
		c.Obs("refused", 1)
	}
	k := opKind(c.Int(4))
	l, r := knownFor(c, k, 3)
	t := 1 + c.Int(n)
	sh := mkShare(k, c.Scalar(), c.Scalar(), c.Scalar(), c.Scalar())
	for _, bad := range badThresholds(c, n) {
		refuse(fmt.Sprintf("%s dealing, threshold %d of %d", opName[k], bad, n), func() error {
			_, err := newDealing(sh, c.Bytes(32), bad, com, 0, ad)
			return err
		})
	}
	refuse("dealing without recipients", func() error {
		_, err := newDealing(sh, c.Bytes(32), c.Int(3), &committee{}, 0, ad)
		return err
	})
	nd := need(k, l, r, t) + c.Int(2)
	tr := runOp(c, k, l, r, gapped(c, nd), t, com, ad)
	op := opOf(k, l, r)
	d := tr.ds[0]
	for _, bad := range append(badThresholds(c, n), t+1, t-1) {
		if bad == t {
			continue
		}
		refuse(fmt.Sprintf("public verification with threshold %d for %d", bad, t), func() error { return d.lib.PubliclyVerify(K, op, bad, d.dealer, n, ad) })
		refuse(fmt.Sprintf("%s transcript with threshold %d for %d", opName[k], bad, t), func() error {
			_, err := dealings.NewTranscriptInternal(K, bad, dealMap(c, tr.ds), op)
			return err
		})
		refuse(fmt.Sprintf("interpolated commitment with threshold %d for %d", bad, t), func() error {
			_, err := dealings.CombineCommitmentsViaInterpolation(k.commitKind(), K, bad, dealMap(c, tr.ds))
			return err
		})
		refuse(fmt.Sprintf("%s transcript of nothing with threshold %d", opName[k], bad), func() error {
			_, err := dealings.NewTranscriptInternal(K, bad, &dmap{}, op)
			return err
		})
		refuse(fmt.Sprintf("interpolated commitment of nothing with threshold %d", bad), func() error {
			_, err := dealings.CombineCommitmentsViaInterpolation(k.commitKind(), K, bad, &dmap{})
			return err
		})
	}
	refuse(fmt.Sprintf("%s transcript of no dealings", opName[k]), func() error {
		_, err := dealings.NewTranscriptInternal(K, t, &dmap{}, op)
		return err
	})
	for _, bad := range []int{0, -1, n - 1, n + 1, 1 << 40, -1 << 40} {
		if bad == n {
			continue
		}
		refuse(fmt.Sprintf("public verification for %d receivers instead of %d", bad, n), func() error { return d.lib.PubliclyVerify(K, op, t, d.dealer, bad, ad) })
		refuse(fmt.Sprintf("ciphertext check for %d receivers instead of %d", bad, n), func() error { return d.lib.Ciphertext.CheckValidity(bad, ad, d.dealer) })
	}
	for _, bad := range []NI{-1, NI(n), NI(n + 1), 1 << 31, 1 << 32, 1<<62 + 5, -1 << 62} {
		refuse(fmt.Sprintf("private verification for receiver %d of %d", bad, n), func() error { return d.lib.PrivateVerify(K, com.sk(0), com.pk(0), ad, d.dealer, bad) })
		refuse(fmt.Sprintf("opening for receiver %d of %d", bad, n), func() error {
			_, err := dealings.CommitmentOpening.OpenDealing(d.lib, ad, d.dealer, bad, com.sk(0), com.pk(0))
			return err
		})
		refuse(fmt.Sprintf("combined opening for receiver %d of %d", bad, n), func() error {
			_, err := dealings.CommitmentOpening.FromDealings(dealMap(c, tr.ds), tr.lib.CombinedCommitment, ad, bad, com.sk(0), com.pk(0))
			return err
		})
		refuse(fmt.Sprintf("decryption from shared secret for receiver %d of %d", bad, n), func() error {
			switch x := d.lib.Ciphertext.(type) {
			case *mega.MEGaCiphertextSingle:
				_, err := x.DecryptFromSharedSecret(ad, d.dealer, bad, com.pk(0), curve.Point.GeneratorG(K))
				return err
			case *mega.MEGaCiphertextPair:
				_, err := x.DecryptFromSharedSecret(ad, d.dealer, bad, com.pk(0), curve.Point.GeneratorG(K))
				return err
			}
			return fmt.Errorf("neither single nor pair")
		})
	}
	// signing thresholds
	s := genSession(c, n, t)
	m := &sigMap{}
	for i := 0; i < n; i++ {
		m.Set(NI(i), s.mustShare(c, NI(i)))
	}
	for _, bad := range badThresholds(c, n) {
		refuse(fmt.Sprintf("signature from %d shares with threshold %d", n, bad), func() error { _, err := s.combine(m, bad); return err })
	}
	for _, bad := range []int{t, 0, -1, 1, -1 << 40, 1 << 40} {
		refuse(fmt.Sprintf("signature from no shares with threshold %d", bad), func() error { _, err := s.combine(&sigMap{}, bad); return err })
	}
	c.Note("%s, threshold %d of %d, %d dealings", opName[k], t, n, nd)
}

func c27counts(c *C) {
	refuse := func(what string, f func() error) {
		var err error
		c.NoPanic("param-crash", what, func() { err = f() })
		c.Check(err != nil, "param-accepts", "%s gives no error", what)
		c.Ev(what, c.I)
		c.Obs("refused", 1)
	}
	quiet := func(what string, f func()) {
		c.NoPanic("param-crash", what, f)
		c.Ev(what, c.I)
		c.Obs("no crash", 1)
	}
	n := 1 + c.Int(6)
	idx := distinctIndices(c, n)
	// Lagrange
	refuse("coefficients for no samples", func() error { _, err := poly.Lagrange.AtZero(K, nil); return err })
	refuse("coefficients for no samples", func() error {
		_, err := poly.Lagrange.AtValue(S(c.Scalar()), []NI{})
		return err
	})
	refuse("empty coefficients", func() error { _, err := poly.Lagrange.New(nil); return err })
	if n > 1 {
		dup := append(append([]NI{}, idx...), idx[c.Int(n)])
		refuse("coefficients with a repeated index", func() error { _, err := poly.Lagrange.AtZero(K, dup); return err })
		refuse("coefficients with a repeated index", func() error { _, err := poly.Lagrange.AtValue(S(c.Scalar()), dup); return err })
	}
	lc, err := poly.Lagrange.AtZero(K, idx)
	c.Check(err == nil, "Lagrange", "coefficients at %v refused: %v", idx, err)
	for _, k := range []int{0, n - 1, n + 1, 2 * n} {
		if k == n {
			continue
		}
		ss, ps := make([]curve.EccScalar, k), make([]curve.EccPoint, k)
		for i := range ss {
			ss[i], ps[i] = S(c.Scalar()), P(c.Point())
		}
		refuse(fmt.Sprintf("interpolating %d scalars with %d coefficients", k, n), func() error { _, err := lc.InterpolateScalar(ss); return err })
		refuse(fmt.Sprintf("interpolating %d points with %d coefficients", k, n), func() error { _, err := lc.InterpolatePoint(ps); return err })
	}
	// polynomials
	sm := [][2]curve.EccScalar{}
	for _, x := range distinctX(c, n+1) {
		sm = append(sm, [2]curve.EccScalar{S(x), S(c.Scalar())})
	}
	sm = append(sm, [2]curve.EccScalar{sm[c.Int(n+1)][0].Clone(), S(c.Scalar())})
	refuse("interpolating a repeated abscissa", func() error { _, err := poly.Poly.Interpolate(K, sm); return err })
	rng := seed.FromBytes(c.Bytes(32)).Rng()
	for _, bad := range []int{0, -1, -5, -1 << 40} {
		refuse(fmt.Sprintf("random polynomial of %d coefficients with constant", bad), func() error { _, err := poly.Poly.RandomWithConstant(S(c.Scalar()), bad, rng); return err })
	}
	f := coeffList(c, 6)
	f = append(f, c.RandScalar())
	for _, bad := range []int{0, -1, len(f) - 1, -1 << 40} {
		for _, kind := range []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen} {
			refuse(fmt.Sprintf("commitment of size %d to %d coefficients", bad, len(f)), func() error { _, err := createCM(kind, f, f, bad); return err })
		}
	}
	for _, k := range []int{len(f), len(f) + 5, 1 << 40} {
		quiet(fmt.Sprintf("coefficient %d", k), func() { mkPoly(f).Coeff(k) })
	}
	// openings
	tr := func() *transcript {
		k := opKind(c.Int(4))
		l, r := knownFor(c, k, 2)
		return runOp(c, k, l, r, gapped(c, need(k, l, r, 1)+1), 1+c.Int(2), genCommittee(c, 2), nil)
	}()
	var ix []NI
	var ops []poly.CommitmentOpening
	for _, d := range tr.ds {
		ix = append(ix, d.dealer)
		ops = append(ops, d.opening(0))
	}
	co := func(ix []NI, ops []poly.CommitmentOpening) func() error {
		return func() error {
			_, err := dealings.CommitmentOpening.CombineOpenings(ix, ops, tr.lib.CombinedCommitment, 0, K)
			return err
		}
	}
	c.Check(co(ix, ops)() == nil, "CombineOpenings", "matching openings refused")
	refuse("combining no openings", co(nil, nil))
	refuse("combining openings without their indices", co(nil, ops))
	refuse("combining openings with too few indices", co(ix[:len(ix)-1], ops))
	refuse("combining openings with too many indices", co(append(append([]NI{}, ix...), 77777), ops))
	refuse("combining indices without openings", co(ix, nil))
	if tr.kind != opRandom && len(ix) > 1 {
		rep := append([]NI{}, ix...)
		rep[0] = rep[1]
		refuse("combining openings with a repeated index", co(rep, ops))
	}
	pk, sk := tr.com.pk(0), tr.com.sk(0)
	refuse("opening from no dealings", func() error {
		_, err := dealings.CommitmentOpening.FromDealings(&dmap{}, tr.lib.CombinedCommitment, nil, 0, sk, pk)
		return err
	})
	refuse("opening from no dealings and openings", func() error {
		_, err := dealings.CommitmentOpening.FromDealingsAndOpenings(&dmap{}, &btree.Map[NI, *btree.Map[NI, poly.CommitmentOpening]]{}, tr.lib.CombinedCommitment, nil, 0, sk, pk)
		return err
	})
	refuse("reconstructing from no openings", func() error {
		_, err := dealings.ReconstructShareFromOpenings(tr.ds[0].lib, &btree.Map[NI, poly.CommitmentOpening]{}, 0)
		return err
	})
	refuse("complaints about no dealings", func() error { _, err := complain(&dmap{}, nil, 0, sk, pk, c.Bytes(32)); return err })
	quiet("complaints of a receiver out of range", func() {
		complain(dealMap(c, tr.ds), nil, NI([]int{-1, 2, 5, 1 << 40}[c.Int(4)]), sk, pk, c.Bytes(32))
	})
	// encryption
	com := genCommittee(c, n)
	for _, k := range []int{0, n - 1, n + 1} {
		if k == n {
			continue
		}
		ss, ps := make([]curve.EccScalar, k), make([][2]curve.EccScalar, k)
		for i := range ss {
			ss[i] = S(c.Scalar())
			ps[i] = [2]curve.EccScalar{ss[i], ss[i]}
		}
		refuse(fmt.Sprintf("encrypting %d plaintexts to %d", k, n), func() error {
			_, err := mega.EncryptCiphertextSingle(Sd(c), ss, com.libPKs(), 0, nil)
			return err
		})
		refuse(fmt.Sprintf("encrypting %d pairs to %d", k, n), func() error {
			_, err := mega.EncryptCiphertextPair(Sd(c), ps, com.libPKs(), 0, nil)
			return err
		})
	}
	refuse("encrypting nothing", func() error { _, err := mega.EncryptCiphertextSingle(Sd(c), nil, nil, 0, nil); return err })
	// wide reduction, expansion, random oracle
	for _, k := range []int{65, 66, 96, 128, 1000, 65 + c.Int(5000)} {
		b := c.Bytes(k)
		if c.Bool() {
			b = make([]byte, k)
		}
		refuse(fmt.Sprintf("wide reduction of %d bytes to a scalar", k), func() error { _, err := curve.Scalar.FromBytesWide(K, b); return err })
		refuse(fmt.Sprintf("wide reduction of %d bytes to a field element", k), func() error { _, err := curve.Field.FromBytesWide(K, b); return err })
	}
	for _, k := range []int{8161, 8192, 1 << 16, 1 << 40, -1, -32, -8160, -1 << 40} {
		refuse(fmt.Sprintf("expansion to %d bytes", k), func() error { _, err := seed.ExpandMessageXmd(c.Bytes(5), []byte("x"), k); return err })
		refuse(fmt.Sprintf("oracle output of %d bytes", k), func() error {
			o := ro.NewRandomOracle("x")
			o.AddUint64("a", 1)
			_, err := o.OutputByteString(k)
			return err
		})
	}
	for _, k := range []int{171, 1000, 1 << 30, 1 << 57, -1, -1000} {
		refuse(fmt.Sprintf("%d oracle scalars", k), func() error {
			o := ro.NewRandomOracle("x")
			o.AddUint64("a", 1)
			_, err := o.OutputScalars(K, k)
			return err
		})
		refuse(fmt.Sprintf("hashing to %d scalars", k), func() error { _, err := curve.Scalar.HashToSeveralScalar(K, k, nil, []byte("d")); return err })
	}
	refuse("oracle output without inputs", func() error { _, err := ro.NewRandomOracle("x").OutputByteString(32); return err })
	refuse("oracle scalar without inputs", func() error { _, err := ro.NewRandomOracle("x").OutputScalar(K); return err })
	refuse("oracle point without inputs", func() error { _, err := ro.NewRandomOracle("x").OutputPoint(K); return err })
	refuse("oracle input without name", func() error { return ro.NewRandomOracle("x").AddBytesString("", nil) })
	refuse("oracle input of long name", func() error { return ro.NewRandomOracle("x").AddBytesString(string(make([]byte, 256)), nil) })
	c.Note("%d samples, %s transcript", n, opName[tr.kind])
}
