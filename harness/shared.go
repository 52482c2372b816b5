package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	kd "github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/fxamacker/cbor/v2"
	"github.com/tidwall/btree"

	"verif/harness/insp"
	"verif/harness/ref"
)

// stage is a set of protocol objects together with every operation of the
// library that reads them. C25 runs the operations concurrently, C26 one after
// the other with fingerprints of all objects in between.
type stage struct {
	obj map[string]interface{}
	ops []sharedOp
}

// sharedOp reads objects of the stage; its results are values or library objects.
type sharedOp struct {
	name string
	run  func() []interface{}
}

func (s *stage) keep(name string, x interface{}) {
	if _, ok := s.obj[name]; ok {
		panic("object registered twice: " + name)
	}
	s.obj[name] = x
}
func (s *stage) op(name string, f func() []interface{}) {
	s.ops = append(s.ops, sharedOp{name, f})
}

func res(xs ...interface{}) []interface{} { return xs }
func isErr(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// resultText renders results by value.
func resultText(xs []interface{}) string {
	out := ""
	for _, x := range xs {
		out += insp.Canon(x) + "\n"
	}
	return out
}

// prints gives the fingerprint of every object.
func (s *stage) prints() map[string]string {
	out := map[string]string{}
	for n, x := range s.obj {
		out[n] = insp.Canon(x)
	}
	return out
}

// spare returns b with spare capacity holding a canary.
func spare(b []byte) []byte {
	out := make([]byte, len(b)+48)
	copy(out, b)
	for i := len(b); i < len(out); i++ {
		out[i] = 0xa5
	}
	return out[:len(b)]
}

// genStage builds the objects. Equal randomness gives equal stages.
func genStage(c *C) *stage {
	s := &stage{obj: map[string]interface{}{}}
	if strings.HasPrefix(c.Gen, "wide") {
		s.wideOps(c)
		return s
	}
	n := 2 + c.Int(3)
	t := 1 + c.Int(n)
	if t > 3 {
		t = 3
	}
	com := genCommittee(c, n)
	ad := spare(c.Bytes([]int{0, 1, 7, 32, 100}[c.Int(5)]))
	s.keep("associated data", ad)

	// scalars, points, field elements in several representations
	var sc []curve.EccScalar
	for i := 0; i < 4; i++ {
		sc = append(sc, S(c.RandScalar()))
	}
	sc = append(sc, S(ref.Neg(bi(1))), S(bi(0)), S(bi(1)))
	s.keep("scalars", sc)
	var pt []curve.EccPoint
	for i := 0; i < 3; i++ {
		pt = append(pt, P(c.RandPoint()), PZ(c.RandPoint(), c.RandScalar()))
	}
	pt = append(pt, P(ref.Infinity()), curve.Point.GeneratorG(K), curve.Point.GeneratorH(K))
	s.keep("points", pt)
	fe := []curve.EccFieldElement{}
	for i := 0; i < 3; i++ {
		fe = append(fe, F(c.Uniform(ref.P)))
	}
	fe = append(fe, F(bi(4)))
	s.keep("field elements", fe)
	sds := []*seed.Seed{}
	for i := 0; i < 4; i++ {
		sds = append(sds, Sd(c))
	}
	s.keep("seeds", sds)
	s.arithOps(sc, pt, fe, sds)

	// encodings
	var enc [][]byte
	for _, p := range pt[:4] {
		enc = append(enc, spare(p.Serialize()), spare(p.SerializeTagged()), spare(p.SerializeUncompressed()))
	}
	for _, x := range sc[:2] {
		cb, err := cbor.Marshal(x)
		if err != nil {
			c.Fail("MarshalCBOR", "%v", err)
		}
		enc = append(enc, spare(x.Serialize()), spare(x.SerializeTagged()), spare(cb))
	}
	s.keep("encodings", enc)
	for i := range enc {
		b := enc[i]
		s.op("decode", func() []interface{} {
			p, e1 := curve.Point.Deserialize(K, b)
			q, e2 := curve.Point.DeserializeTagged(K, b)
			r, e3 := curve.Point.DeserializeAnyFormat(K, b)
			x, e4 := curve.Scalar.Deserialize(K, b)
			y, e5 := curve.Scalar.DeserializeTagged(b)
			f, e6 := curve.Field.FromBytes(K, b)
			return res(p, q, r, x, y, f, isErr(e1), isErr(e2), isErr(e3), isErr(e4), isErr(e5), isErr(e6))
		})
	}
	msg, dst := spare(c.Bytes(40)), spare([]byte("a domain separator"))
	s.keep("hash inputs", [][]byte{msg, dst})
	s.op("hash to curve, field and scalar", func() []interface{} {
		p, e1 := curve.Point.HashToPoint(K, msg, dst)
		x, e2 := curve.Scalar.HashToSeveralScalar(K, 2, msg, dst)
		f, e3 := curve.HashToField(2, K, msg, dst)
		q, e4 := curve.MapToCurve(fe[0])
		b, e5 := seed.ExpandMessageXmd(msg, dst, 100)
		return res(p, x, f, q, b, isErr(e1), isErr(e2), isErr(e3), isErr(e4), isErr(e5))
	})
	s.op("wide reduction", func() []interface{} {
		x, e1 := curve.Scalar.FromBytesWide(K, msg)
		f, e2 := curve.Field.FromBytesWide(K, msg)
		return res(x, f, isErr(e1), isErr(e2))
	})
	var ix []kd.DerivationIndex
	for _, l := range []int{0, 1, 3, 4, 4, 5, 8, 33, 200} {
		b := spare(c.Bytes(l))
		if l > 0 {
			if b[l-1] &= 0x7f; c.Bool() {
				b[l-1] = 0xff
			}
		}
		ix = append(ix, b)
	}
	s.keep("derivation indices to step", ix)
	for i := range ix {
		d := ix[i]
		s.op("next index", func() []interface{} { return res([]byte(d.Next())) })
	}
	s.op("reverse bytes", func() []interface{} { return res(common.ReverseBytes(msg)) })
	s.op("random oracle", func() []interface{} {
		o := ro.NewRandomOracle("shared-objects")
		e1 := o.AddPoint("a point", pt[1])
		e2 := o.AddPoints("points", pt)
		e3 := o.AddScalar("a scalar", sc[0])
		e4 := o.AddBytesString("bytes", ad)
		x, e5 := o.OutputScalars(K, 3)
		b, e6 := o.OutputByteString(77)
		p, e7 := o.OutputPoint(K)
		return res(x, b, p, isErr(e1), isErr(e2), isErr(e3), isErr(e4), isErr(e5), isErr(e6), isErr(e7))
	})

	// polynomials, interpolation, commitments, openings
	f, g := mkPoly(randPoly(c, 1+c.Int(4))), mkPoly(randPoly(c, 1+c.Int(4)))
	s.keep("polynomials", []*poly.Polynomial{f, g})
	coeffs := make([]curve.EccScalar, 5)
	for i := range coeffs {
		coeffs[i] = S(c.RandScalar())
	}
	coeffs[2] = S(bi(0)) // a leading zero of coeffs[:3]
	s.keep("coefficients", coeffs)
	idx := make([]NI, 6)
	for i, k := range distinctIndices(c, 6) {
		idx[i] = k
	}
	s.keep("indices", idx)
	samples := make([][2]curve.EccScalar, 4)
	for i, x := range distinctX(c, 4) {
		samples[i] = [2]curve.EccScalar{S(x), S(c.RandScalar())}
	}
	s.keep("samples", samples)
	s.polyOps(f, g, coeffs, idx, samples, sc, pt, sds)
	for _, kind := range []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen} {
		kind := kind
		p := genPol(c, kind, 1+c.Int(4), 0, nil, nil)
		q := genPol(c, kind, len(p.a), 0, nil, nil)
		i := NI(c.Index())
		op, wrong := p.opening(i), q.opening(i)
		cms := append(wrappers(p.raw()), q.raw(), libCM(poly.Simple+poly.Pedersen-kind, p.points()))
		s.keep(fmt.Sprintf("commitments %d", kind), cms)
		s.keep(fmt.Sprintf("openings %d", kind), []poly.CommitmentOpening{op, wrong})
		fp, gp := mkPoly(p.a), mkPoly(p.b)
		s.keep(fmt.Sprintf("committed polynomials %d", kind), []*poly.Polynomial{fp, gp})
		s.op("create commitment", func() []interface{} {
			if kind == poly.Simple {
				m, err := poly.SimpleCM.Create(fp, len(p.a)+1)
				return res(m, isErr(err))
			}
			m, err := poly.PedersenCM.Create(fp, gp, len(p.a)+1)
			return res(m, isErr(err))
		})
		for ci := range cms {
			m, name := cms[ci], fmt.Sprintf("%T", cms[ci])
			s.op(name+" evaluate", func() []interface{} { return res(m.EvaluateAt(i), m.EvaluateAt(0), m.ConstantTerm()) })
			s.op(name+" check openings", func() []interface{} {
				o, err := m.ReturnOpeningIfConsistent(i, op)
				return res(m.CheckOpening(i, op), m.CheckOpening(i, wrong), m.CheckOpening(i+1, op), view{o}, isErr(err))
			})
			s.op(name+" read", func() []interface{} {
				b, err := m.Serialize()
				return res(m.Type(), m.Len(), view{m.Points()}, m.CurveType(), m.StableRepresentation(), isErr(m.VerifyIs(kind, K)), b, isErr(err), m.Equal(cms[0]), m.Equal(cms[3]))
			})
			s.op(name+" clone", func() []interface{} { return res(m.Clone()) })
			if b, err := m.Serialize(); err == nil && deserializeCommitment != nil {
				b = spare(b)
				s.keep(fmt.Sprintf("encoded commitment %d %d", kind, ci), b)
				s.op("decode commitment", func() []interface{} { m, err := deserializeCommitment(b); return res(m, isErr(err)) })
			}
		}
		b, err := op.Serialize()
		if err != nil {
			c.Fail("Serialize", "%v", err)
		}
		b = spare(b)
		s.keep(fmt.Sprintf("encoded opening %d", kind), b)
		s.op("openings read", func() []interface{} {
			e, err := op.Serialize()
			a1, ok1 := poly.AsSimpleOpening(op)
			a2, ok2 := poly.AsPedersenOpening(op)
			return res(e, isErr(err), op.ToCommitmentOpeningBytes(), view{a1[:]}, ok1, view{a2[:]}, ok2)
		})
		s.op("decode opening", func() []interface{} { o, err := poly.Commitment.Deserialize(b); return res(o, isErr(err)) })
		ob := op.ToCommitmentOpeningBytes()
		s.keep(fmt.Sprintf("opening bytes %d", kind), ob)
		s.op("opening from bytes", func() []interface{} { return res(ob.ToCommitmentOpening()) })
		s.op("secret share from opening bytes", func() []interface{} {
			x, err := dealings.Secret.From(ob, nil)
			return res(x, isErr(err))
		})
	}

	// proofs
	pad := ad
	for _, k := range []zkKind{zkDLog, zkEqual, zkProduct} {
		k := k
		w, st := zkGen(c, k)
		ls, ps := Ss(w), []curve.EccPoint{}
		for _, p := range st {
			ps = append(ps, PR(c, p))
		}
		proof, err := zkCreate(k, c.Bytes(32), w, st, pad)
		if err != nil {
			c.Fail("Create", "%v", err)
		}
		s.keep(fmt.Sprintf("witness %d", k), ls)
		s.keep(fmt.Sprintf("statement %d", k), ps)
		s.keep(fmt.Sprintf("proof %d", k), proof)
		switch x := proof.(type) {
		case *zk.ProofOfDLogEquivalence:
			s.op("prove dlog equivalence", func() []interface{} {
				p, err := zk.ProofOfDLogEquivalenceIns.Create(sds[0], ls[0], ps[0], ps[1], pad)
				return res(p, isErr(err))
			})
			s.op("verify dlog equivalence", func() []interface{} {
				return res(isErr(x.Verify(ps[0], ps[1], ps[2], ps[3], pad)), isErr(x.Verify(ps[1], ps[0], ps[2], ps[3], pad)))
			})
			s.op("clone dlog proof", func() []interface{} { return res(x.Clone()) })
			s.op("dlog instance", func() []interface{} {
				i1, e1 := zk.ProofOfDLogEquivalenceIns.FromWitness(ps[0], ps[1], ls[0])
				i2, e2 := zk.ProofOfDLogEquivalenceIns.FromCommitments(ps[0], ps[1], ps[2], ps[3])
				c1, c2, e3 := i2.RecoverCommitments(x)
				ch, e4 := i1.HashToChallenge(c1, c2, pad)
				return res(view{i1}, view{i2}, c1, c2, ch, isErr(e1), isErr(e2), isErr(e3), isErr(e4))
			})
		case *zk.ProofOfEqualOpenings:
			s.op("prove equal openings", func() []interface{} {
				p, err := zk.ProofOfEqualOpeningsIns.Create(sds[1], ls[0], ls[1], pad)
				return res(p, isErr(err))
			})
			s.op("verify equal openings", func() []interface{} {
				return res(isErr(x.Verify(ps[0], ps[1], pad)), isErr(x.Verify(ps[1], ps[0], pad)))
			})
			s.op("clone equal openings proof", func() []interface{} { return res(x.Clone()) })
			s.op("equal openings instance", func() []interface{} {
				i1 := zk.ProofOfEqualOpeningsIns.FromWitness(ls[0], ls[1])
				i2 := zk.ProofOfEqualOpeningsIns.FromCommitments(ps[0], ps[1])
				cm := i2.RecoverCommitments(x)
				ch, e4 := i1.HashToChallenge(cm, pad)
				return res(view{i1}, view{i2}, cm, ch, isErr(e4))
			})
		case *zk.ProofOfProduct:
			s.op("prove product", func() []interface{} {
				p, err := zk.ProofOfProductIns.Create(sds[2], ls[0], ls[1], ls[2], ls[3], ls[4], pad)
				return res(p, isErr(err))
			})
			s.op("verify product", func() []interface{} {
				return res(isErr(x.Verify(ps[0], ps[1], ps[2], pad)), isErr(x.Verify(ps[0], ps[2], ps[1], pad)))
			})
			s.op("clone product proof", func() []interface{} { return res(x.Clone()) })
			s.op("product instance", func() []interface{} {
				i1 := zk.ProofOfProductIns.FromWitness(ls[0], ls[1], ls[2], ls[3], ls[4])
				i2 := zk.ProofOfProductIns.FromCommitments(ps[0], ps[1], ps[2])
				c1, c2 := i2.RecoverCommitment(x)
				ch, e4 := i1.HashToChallenge(c1, c2, pad)
				return res(view{i1}, view{i2}, c1, c2, ch, isErr(e4))
			})
		}
	}

	// MEGa keys and ciphertexts
	pks := make([]*mega.MEGaPublicKey, n+2)
	var sks []*mega.MEGaPrivateKey
	for i := 0; i < n; i++ {
		pks[i] = mega.NewMEGaPublicKey(PR(c, com.pks[i]))
		sks = append(sks, com.sk(i))
	}
	canary := mega.NewMEGaPublicKey(P(c.RandPoint()))
	pks[n], pks[n+1] = canary, canary
	s.keep("public keys", pks)
	s.keep("private keys", sks)
	keys := pks[:n] // with spare capacity
	dealer := NI(c.WideIndex())
	singles := make([]curve.EccScalar, n)
	pairs := make([][2]curve.EccScalar, n)
	for i := range singles {
		singles[i] = S(c.Scalar())
		pairs[i] = [2]curve.EccScalar{S(c.Scalar()), S(c.Scalar())}
	}
	s.keep("plaintexts", singles)
	s.keep("plaintext pairs", pairs)
	cs, err := mega.EncryptCiphertextSingle(sds[0], singles, keys, dealer, ad)
	if err != nil {
		c.Fail("Encrypt", "%v", err)
	}
	cp, err := mega.EncryptCiphertextPair(sds[1], pairs, keys, dealer, ad)
	if err != nil {
		c.Fail("Encrypt", "%v", err)
	}
	s.keep("single ciphertext", cs)
	s.keep("pair ciphertext", cp)
	s.op("encrypt single", func() []interface{} {
		x, err := mega.EncryptCiphertextSingle(sds[2], singles, keys, dealer, ad)
		return res(x, isErr(err))
	})
	s.op("encrypt pair", func() []interface{} {
		x, err := mega.EncryptCiphertextPair(sds[3], pairs, keys, dealer, ad)
		return res(x, isErr(err))
	})
	s.op("clone single ciphertext", func() []interface{} { return res(cs.Clone()) })
	for _, x := range []mega.MEGaCiphertext{cs, cp} {
		x := x
		s.op("check ciphertext", func() []interface{} {
			return res(isErr(x.CheckValidity(n, ad, dealer)), isErr(x.CheckValidity(n+1, ad, dealer)), isErr(x.CheckValidity(n, ad, dealer+1)), x.Recipients(), view{x.Ephemeral()}, view{x.PopPublic()}, view{x.Proof()}, isErr(x.VerifyIs(x.CType(), K)))
		})
	}
	s.op("verify proofs of possession", func() []interface{} {
		return res(isErr(cs.VerifyPop(ad, dealer)), isErr(cp.VerifyPop(ad, dealer)), isErr(cs.VerifyPop(ad, dealer+1)))
	})
	for i := 0; i < 2; i++ {
		i := i
		j := NI(i)
		shared := PR(c, pv(cs.Ephemeral()).Mul(com.sks[i]))
		s.keep(fmt.Sprintf("shared secret %d", i), shared)
		s.op("decrypt single", func() []interface{} {
			a, e1 := cs.Decrypt(ad, dealer, j, sks[i], keys[i])
			b, e2 := cs.DecryptFromSharedSecret(ad, dealer, j, keys[i], shared)
			return res(a, b, isErr(e1), isErr(e2))
		})
		s.op("decrypt pair", func() []interface{} {
			a, e1 := cp.Decrypt(ad, dealer, j, sks[i], keys[i])
			b, e2 := cp.DecryptFromSharedSecret(ad, dealer, j, keys[i], shared)
			return res(a[:], b[:], isErr(e1), isErr(e2))
		})
		s.op("keys", func() []interface{} {
			p, e1 := mega.PublicKey.Deserialize(K, keys[i].Serialize())
			q, e2 := mega.PrivateKey.Deserialize(K, sks[i].Serialize())
			return res(sks[i].PublicKey(), keys[i].Serialize(), sks[i].Serialize(), p, q, isErr(e1), isErr(e2), view{keys[i].PublicPoint()}, view{sks[i].SecretScalar()}, isErr(mega.VerifyMegaPublicKey(K, keys[i].Serialize())))
		})
	}
	s.op("generate key pair", func() []interface{} {
		p, k, err := mega.GenKeypair(K, sds[0])
		return res(p, k, isErr(err))
	})

	s.dealOps(c, com, sks, keys, n, t, ad, sds)
	s.signOps(c, n, t)
	return s
}

func (s *stage) arithOps(sc []curve.EccScalar, pt []curve.EccPoint, fe []curve.EccFieldElement, sds []*seed.Seed) {
	s.op("scalar arithmetic", func() []interface{} {
		var out []interface{}
		for i := range sc {
			a, b := sc[i], sc[(i+1)%len(sc)]
			z := func() curve.EccScalar { return curve.Scalar.Zero(K) }
			out = append(out, z().Add(a, b), z().Sub(a, b), z().Mul(a, b), z().Negate(a), z().Invert(a), a.Equal(b), a.IsZero(), a.IsHigh(), a.Serialize(), a.SerializeTagged(), a.BigInt().String(), a.Clone(), z().Assign(a))
			m, err := cbor.Marshal(a)
			out = append(out, m, isErr(err), curve.Scalar.ToScalarBytes(a).ScalarBytes())
		}
		return out
	})
	s.op("point arithmetic", func() []interface{} {
		var out []interface{}
		for i := range pt {
			p, q := pt[i], pt[(i+1)%len(pt)]
			z := func() curve.EccPoint { return curve.Point.Identity(K) }
			out = append(out, z().AddPoints(p, q), z().SubPoints(p, q), z().Double(p), p.Equal(q), p.IsInfinity(), p.Clone(), z().Assign(p))
		}
		return out
	})
	for i := range sc {
		k := sc[i]
		s.op("point multiplication", func() []interface{} {
			var out []interface{}
			for _, p := range pt {
				out = append(out, curve.Point.Identity(K).ScalarMul(p, k), p.Clone().MulByNodeIndex(NI(i)))
			}
			return append(out, curve.Point.MulByG(k), curve.Point.Pedersen(k, sc[0]), curve.Point.Pedersen(sc[0], k), curve.Point.MulPoints(pt[0], k, pt[1], sc[1]), curve.Point.MulPoints(pt[0], sc[1], pt[6], k))
		})
	}
	s.op("point multiplication", func() []interface{} {
		z := func() curve.EccPoint { return curve.Point.Identity(K) }
		return res(z().ScalarMul(pt[0], sc[0]), z().ScalarMul(pt[1], sc[1]), curve.Point.MulByG(sc[2]), curve.Point.Pedersen(sc[0], sc[3]),
			curve.Point.MulPoints(pt[2], sc[0], pt[3], sc[1]), pt[1].Clone().MulByNodeIndex(77))
	})
	s.op("point encodings", func() []interface{} {
		var out []interface{}
		for _, p := range pt {
			out = append(out, p.Serialize(), p.SerializeTagged(), p.SerializeUncompressed())
			if !p.IsInfinity() {
				out = append(out, p.AffineX(), p.AffineY())
			}
		}
		return out
	})
	s.op("point constants", func() []interface{} {
		return res(curve.Point.GeneratorG(K), curve.Point.GeneratorH(K), curve.Point.Identity(K), curve.Scalar.One(K), curve.Scalar.Zero(K), curve.Scalar.FromUint64(K, 12345), curve.Scalar.FromNodeIndex(K, 99))
	})
	s.op("field arithmetic", func() []interface{} {
		var out []interface{}
		for i := range fe {
			a, b := fe[i], fe[(i+1)%len(fe)]
			z := func() curve.EccFieldElement { return curve.Field.Zero(K) }
			r, ok := z().Sqrt(a)
			out = append(out, z().Add(a, b), z().Sub(a, b), z().Mul(a, b), z().Square(a), z().Negate(a), z().Invert(a), r, ok, a.Equal(b), a.IsZero(), a.AsBytes(), a.Sign(), a.Clone(), z().Assign(a), a.BigInt().String(), z().Progenitor(a))
		}
		out = append(out, curve.Field.A(K), curve.Field.B(K), curve.Field.SswuA(K), curve.Field.SswuB(K), curve.Field.SswuZ(K), curve.Field.SswuC2(K), curve.Field.One(K))
		return out
	})
	s.op("seeds", func() []interface{} {
		d := sds[0].Derive("a label")
		b := make([]byte, 100)
		d.Rng().FillUint8(b)
		r := sds[1].Rng()
		return res(d, b, r.Uint32(), r.Uint64(), curve.Scalar.FromSeed(K, sds[2]), curve.Scalar.Random(K, sds[3].Rng()), seed.FromRng(sds[0].Rng()), seed.FromBytes(b[:20]))
	})
}

func (s *stage) polyOps(f, g *poly.Polynomial, coeffs []curve.EccScalar, idx []NI, samples [][2]curve.EccScalar, sc []curve.EccScalar, pt []curve.EccPoint, sds []*seed.Seed) {
	s.op("polynomial arithmetic", func() []interface{} {
		z := func() *poly.Polynomial { return poly.Poly.Zero(K) }
		return res(z().Add(f, g), z().Add(g, f), z().Mul(f, g), z().MulScalar(f, sc[0]), f.EvaluateAt(sc[1]), g.EvaluateAt(sc[5]), f.Equal(g), f.Equal(f), f.IsZero(), f.NonZeroCoefficients(), f.Coeff(0), f.Coeff(9))
	})
	s.op("new polynomial", func() []interface{} {
		return res(view{poly.Poly.New(K, coeffs[:4])}, view{poly.Poly.New(K, coeffs[:3])}, view{poly.Poly.New(K, coeffs[:0])})
	})
	s.op("random polynomial", func() []interface{} {
		p, err := poly.Poly.RandomWithConstant(sc[0], 3, sds[1].Rng())
		return res(poly.Poly.Random(K, 3, sds[0].Rng()), view{p}, isErr(err)) // the constant is wrapped
	})
	s.op("interpolate polynomial", func() []interface{} {
		p, err := poly.Poly.Interpolate(K, samples)
		q, err2 := poly.Poly.Interpolate(K, samples[:1])
		return res(p, isErr(err), q, isErr(err2))
	})
	s.op("lagrange", func() []interface{} {
		l, e1 := poly.Lagrange.AtZero(K, idx[:4])
		m, e2 := poly.Lagrange.AtValue(sc[0], idx)
		if e1 != nil || e2 != nil {
			return res(isErr(e1), isErr(e2))
		}
		a, e3 := l.InterpolateScalar(coeffs[:4])
		b, e4 := m.InterpolatePoint(pt[:6])
		o, e5 := l.InterpolateScalar(coeffs[:3])
		return res(view{l.Coefficients()}, l, m, a, b, o, isErr(e3), isErr(e4), isErr(e5), l.Equal(m))
	})
	l, err := poly.Lagrange.AtZero(K, idx[:4])
	if err == nil {
		s.keep("lagrange coefficients", l)
		s.op("interpolate", func() []interface{} {
			a, e1 := l.InterpolateScalar(sc[:4])
			b, e2 := l.InterpolatePoint(pt[2:6])
			if one, err := poly.Lagrange.AtZero(K, idx[:1]); err == nil {
				x, e3 := one.InterpolateScalar(sc[:1])
				y, e4 := one.InterpolatePoint(pt[:1])
				return res(a, b, x, y, isErr(e1), isErr(e2), isErr(e3), isErr(e4), l.Equal(l))
			}
			return res(a, b, isErr(e1), isErr(e2), l.Equal(l), view{l.Coefficients()})
		})
	}
}

func (s *stage) dealOps(c *C, com *committee, sks []*mega.MEGaPrivateKey, keys []*mega.MEGaPublicKey, n, t int, ad []byte, sds []*seed.Seed) {
	for _, k := range []opKind{opRandom, opReshareMasked, opReshareUnmasked, opProduct} {
		k := k
		name := opName[k]
		l, r := knownFor(c, k, 2)
		nd := need(k, l, r, t) + c.Int(3)
		tr := &transcript{kind: k, t: t, com: com, ad: ad, l: l, r: r}
		op := opOf(k, l, r)
		s.keep(name+" operation", op)
		dealers := gapped(c, nd)
		for _, i := range dealers {
			tr.ds = append(tr.ds, dealFor(c, k, l, r, NI(i), t, com, ad))
		}
		dm := dealMap(c, tr.ds)
		s.keep(name+" dealings", dm)
		s.keep(name+" dealing: the first", tr.ds[0].lib)
		s.keep(name+" dealing: the last", tr.ds[len(tr.ds)-1].lib)
		lib, err := dealings.NewTranscriptInternal(K, t, dm, op)
		if err != nil {
			c.Fail("NewTranscript", "%s: %v", name, err)
		}
		s.keep(name+" transcript", lib)
		cc := lib.CombinedCommitment
		d0 := tr.ds[0]
		var v, w, rv, rw *Int
		if l != nil {
			v, w = l.at(d0.dealer)
		}
		if r != nil {
			rv, rw = r.at(d0.dealer)
		}
		share := mkShare(k, v, w, rv, rw)
		s.keep(name+" share", share)
		s.op(name+": deal", func() []interface{} {
			d, err := dealings.NewIDkgDealingInternal(share, K, sds[0], t, keys, d0.dealer, ad)
			return res(d, isErr(err))
		})
		s.op(name+": verify publicly", func() []interface{} {
			return res(isErr(d0.lib.PubliclyVerify(K, op, t, d0.dealer, n, ad)), isErr(d0.lib.PubliclyVerify(K, op, t, d0.dealer+1, n, ad)), isErr(d0.lib.PubliclyVerify(K, op, t+1, d0.dealer, n, ad)))
		})
		s.op(name+": verify privately", func() []interface{} {
			out := res()
			for i := range keys {
				out = append(out, isErr(d0.lib.PrivateVerify(K, sks[i], keys[i], ad, d0.dealer, NI(i))))
			}
			return append(out, isErr(d0.lib.PrivateVerify(K, sks[0], keys[0], ad, d0.dealer, 1)))
		})
		s.op(name+": combine", func() []interface{} {
			x, err := dealings.NewTranscriptInternal(K, t, dm, op)
			y, err2 := dealings.NewTranscriptInternal(K, t, &dmap{}, op)
			return res(x, isErr(err), y, isErr(err2))
		})
		s.op(name+": read transcript", func() []interface{} {
			b, err := cc.Serialize()
			return res(lib.ConstantTerm(), lib.EvaluateAt(3), lib.Compare(*lib), b, isErr(err))
		})
		if p := d0.lib.Proof; p != nil {
			s.op(name+": clone proof", func() []interface{} { return res(p.Clone(), p.Type()) })
		}
		s.op(name+": open", func() []interface{} {
			a, e1 := dealings.CommitmentOpening.FromDealings(dm, cc, ad, 0, sks[0], keys[0])
			b, e2 := dealings.CommitmentOpening.FromDealings(dm, cc, ad, 1, sks[1], keys[1])
			e, e3 := dealings.CommitmentOpening.FromDealings(dm, cc, ad, 1, sks[0], keys[0])
			return res(a, b, e, isErr(e1), isErr(e2), isErr(e3))
		})

		// the first dealing corrupted for receiver 0; the others publish openings
		y := *d0
		y.lib = corruptShare(c, d0.lib, []int{0})
		bad := append([]*dealt{&y}, tr.ds[1:]...)
		var also []*dealt // and some of the others
		for j := 1; j < len(bad); j++ {
			if c.Bool() || j == 1 {
				z := *bad[j]
				z.lib = corruptShare(c, z.lib, []int{0})
				bad[j], also = &z, append(also, &z)
			}
		}
		bm := dealMap(c, bad)
		s.keep(name+" dealings with a bad share", bm)
		s.keep(name+" dealing: the bad one", y.lib)
		s.op(name+": complain", func() []interface{} {
			cm, err := complaints.GenerateComplaints(bm, ad, 0, sks[0], keys[0], sds[1])
			none, err2 := complaints.GenerateComplaints(dm, ad, 0, sks[0], keys[0], sds[1])
			x, err3 := complaints.NewComplaintInternal(sds[2], y.lib, d0.dealer, 0, sks[0], keys[0], ad)
			return res(cm, isErr(err), none, isErr(err2), x, isErr(err3))
		})
		cx, err := complaints.NewComplaintInternal(sds[3], y.lib, d0.dealer, 0, sks[0], keys[0], ad)
		if err != nil {
			c.Fail("NewComplaint", "%v", err)
		}
		s.keep(name+" complaint", cx)
		s.op(name+": verify complaint", func() []interface{} {
			return res(isErr(cx.Verify(y.lib, d0.dealer, 0, keys[0], ad)), isErr(cx.Verify(d0.lib, d0.dealer, 0, keys[0], ad)), isErr(cx.Verify(y.lib, d0.dealer, 1, keys[1], ad)))
		})
		// openings of d0 for receiver 0 recovered from the other receivers need t of them
		om := &omap{}
		for i := 1; i < n; i++ {
			om.Set(NI(i), d0.opening(NI(i)))
		}
		prov := &btree.Map[NI, *omap]{}
		prov.Set(d0.dealer, om)
		for _, z := range also {
			om := &omap{}
			for i := 1; i < n; i++ {
				om.Set(NI(i), z.opening(NI(i)))
			}
			prov.Set(z.dealer, om)
		}
		s.keep(name+" provided openings", prov)
		s.op(name+": open dealing", func() []interface{} {
			o, e1 := dealings.CommitmentOpening.OpenDealing(y.lib, ad, d0.dealer, 1, sks[1], keys[1])
			p, e2 := dealings.CommitmentOpening.OpenDealing(y.lib, ad, d0.dealer, 0, sks[0], keys[0])
			return res(o, p, isErr(e1), isErr(e2))
		})
		s.op(name+": recover", func() []interface{} {
			o, e1 := dealings.ReconstructShareFromOpenings(y.lib, om, 0)
			p, e2 := dealings.CommitmentOpening.FromDealingsAndOpenings(bm, prov, cc, ad, 0, sks[0], keys[0])
			q, e3 := dealings.CommitmentOpening.FromDealingsAndOpenings(bm, &btree.Map[NI, *omap]{}, cc, ad, 0, sks[0], keys[0])
			return res(o, p, q, isErr(e1), isErr(e2), isErr(e3))
		})
		idx := make([]NI, len(tr.ds))
		ops := make([]poly.CommitmentOpening, len(tr.ds))
		for j, d := range tr.ds {
			idx[j], ops[j] = d.dealer, d.opening(2)
		}
		s.keep(name+" opening dealers", idx)
		s.keep(name+" openings", ops)
		s.op(name+": combine openings", func() []interface{} {
			o, e1 := dealings.CommitmentOpening.CombineOpenings(idx, ops, cc, 2, K)
			p, e2 := dealings.CommitmentOpening.CombineOpenings(idx, ops, cc, 3, K)
			return res(o, p, isErr(e1), isErr(e2))
		})
	}
}

// wideOps is a stage of few operations on many recipients, dealings, openings,
// shares and coefficients at once.
func (s *stage) wideOps(c *C) {
	n := 17 + c.Int(16)
	com := genCommittee(c, n)
	sks, keys := []*mega.MEGaPrivateKey{}, []*mega.MEGaPublicKey{}
	for i := 0; i < n; i++ {
		sks, keys = append(sks, com.sk(i)), append(keys, com.pk(i))
	}
	s.keep("secret keys", sks)
	s.keep("public keys", keys)
	ad := spare(c.Bytes(20))
	s.keep("associated data", ad)
	sds := []*seed.Seed{Sd(c), Sd(c), Sd(c)}
	s.keep("seeds", sds)
	var sc, sc2 []curve.EccScalar
	var pts []curve.EccPoint
	var pair [][2]curve.EccScalar
	for i := 0; i < n; i++ {
		sc, sc2 = append(sc, S(c.Scalar())), append(sc2, S(c.Scalar()))
		pair = append(pair, [2]curve.EccScalar{S(c.Scalar()), S(c.Scalar())})
		pts = append(pts, PR(c, c.Point()))
	}
	s.keep("scalars", sc)
	s.keep("pairs", pair)
	s.keep("points", pts)
	s.op("encrypt single", func() []interface{} {
		x, err := mega.EncryptCiphertextSingle(sds[0], sc, keys, 3, ad)
		return res(x, isErr(err))
	})
	s.op("encrypt pair", func() []interface{} {
		x, err := mega.EncryptCiphertextPair(sds[0], pair, keys, 3, ad)
		return res(x, isErr(err))
	})
	idx := distinctIndices(c, n)
	s.keep("indices", idx)
	s.op("interpolate", func() []interface{} {
		l, err := poly.Lagrange.AtValue(sc2[0], idx)
		if err != nil {
			return res(isErr(err))
		}
		x, e1 := l.InterpolateScalar(sc)
		y, e2 := l.InterpolatePoint(pts)
		return res(l, x, isErr(e1), y, isErr(e2))
	})
	var sm [][2]curve.EccScalar
	for i := range idx {
		sm = append(sm, [2]curve.EccScalar{S(X(idx[i])), sc[i]})
	}
	s.keep("samples", sm)
	s.op("interpolate a polynomial", func() []interface{} {
		x, err := poly.Poly.Interpolate(K, sm)
		return res(x, isErr(err))
	})
	f, g := mkPoly(svs(sc)), mkPoly(svs(sc2))
	s.keep("polynomials", []*poly.Polynomial{f, g})
	s.op("polynomials", func() []interface{} {
		z := func() *poly.Polynomial { return poly.Poly.Zero(K) }
		return res(z().Add(f, g), z().Mul(f, g), f.EvaluateAt(sc2[1]), f.Equal(g))
	})
	s.op("create commitment", func() []interface{} {
		a, e1 := poly.SimpleCM.Create(f, n)
		b, e2 := poly.PedersenCM.Create(f, g, n)
		return res(a, isErr(e1), b, isErr(e2))
	})
	cm := []poly.PolynomialCommitment{newCM(poly.Simple, pts), newCM(poly.Pedersen, pts)}
	s.keep("commitments", cm)
	s.op("read commitments", func() []interface{} {
		out := res()
		for _, m := range cm {
			b, err := m.Serialize()
			out = append(out, b, isErr(err), m.EvaluateAt(7), m.StableRepresentation())
		}
		return out
	})
	// dealings of many dealers to a committee of three, some shares of receiver 0 bad
	small := &committee{com.sks[:3], com.pks[:3]}
	k := opKind(c.Int(4))
	name := opName[k]
	l, r, ds := dealPool(c, k, n, 2, small, ad)
	op := opOf(k, l, r)
	s.keep("operation", op)
	bad := append([]*dealt{}, ds...)
	prov := &btree.Map[NI, *omap]{}
	for _, j := range c.Subset(n, 3+c.Int(n-3)) {
		y := *bad[j]
		y.lib = corruptShare(c, y.lib, []int{0})
		bad[j] = &y
		om := &omap{}
		om.Set(1, y.opening(1))
		om.Set(2, y.opening(2))
		prov.Set(y.dealer, om)
	}
	dm, bm := dealMap(c, ds), dealMap(c, bad)
	s.keep("dealings", dm)
	s.keep("dealings with bad shares", bm)
	s.keep("openings provided", prov)
	s.op(name+": combine", func() []interface{} {
		x, err := dealings.NewTranscriptInternal(K, 2, dm, op)
		return res(x, isErr(err))
	})
	lib, err := dealings.NewTranscriptInternal(K, 2, dm, op)
	if err != nil {
		c.Fail("NewTranscript", "%s: %v", name, err)
	}
	s.keep("transcript", lib)
	cc := lib.CombinedCommitment
	s.op(name+": complain", func() []interface{} {
		x, err := complaints.GenerateComplaints(bm, ad, 0, sks[0], keys[0], sds[1])
		return res(x, isErr(err))
	})
	s.op(name+": open", func() []interface{} {
		a, e1 := dealings.CommitmentOpening.FromDealings(dm, cc, ad, 0, sks[0], keys[0])
		b, e2 := dealings.CommitmentOpening.FromDealings(bm, cc, ad, 0, sks[0], keys[0])
		return res(a, isErr(e1), b, isErr(e2))
	})
	s.op(name+": recover", func() []interface{} {
		a, e1 := dealings.CommitmentOpening.FromDealingsAndOpenings(bm, prov, cc, ad, 0, sks[0], keys[0])
		return res(a, isErr(e1))
	})
	// a dealing to many receivers
	var v, w, rv, rw *Int
	i := NI(c.Int(50))
	if l != nil {
		v, w = l.at(i)
	}
	if r != nil {
		rv, rw = r.at(i)
	}
	share := mkShare(k, v, w, rv, rw)
	s.keep("share", share)
	d, err := dealings.NewIDkgDealingInternal(share, K, sds[2], n, keys, i, ad)
	if err != nil {
		c.Fail("NewIDkgDealing", "%s: %v", name, err)
	}
	s.keep("dealing", d)
	s.op(name+": deal", func() []interface{} {
		d, err := dealings.NewIDkgDealingInternal(share, K, sds[2], n, keys, i, ad)
		return res(d, isErr(err))
	})
	s.op(name+": verify", func() []interface{} {
		return res(isErr(d.PubliclyVerify(K, op, n, i, n, ad)), isErr(d.PrivateVerify(K, sks[n-1], keys[n-1], ad, i, NI(n-1))))
	})
	// many signature shares
	x := genSession(c, n, 3)
	if len(x.hash) > 64 {
		x.hash = x.hash[:64]
	}
	x.expect()
	path := libPath(x.path)
	m := &sigMap{}
	for _, i := range idx {
		m.Set(i, x.mustShare(c, i))
	}
	s.keep("signature shares", m)
	s.keep("signing transcripts", []*dealings.IDkgTranscriptInternal{x.lkey, x.lpre, x.llam, x.lkl, x.lxl})
	s.op("combine signature", func() []interface{} {
		y, err := sign.NewThresholdEcdsaCombinedSigInternal(path, x.hash, x.rnd, x.lkey, x.lpre, 3, m, K)
		return res(y, isErr(err))
	})
}

func (s *stage) signOps(c *C, n, t int) {
	x := genSession(c, n, t)
	if len(x.hash) > 64 {
		x.hash = x.hash[:64]
	}
	for i := range x.path {
		x.path[i] = spare(x.path[i])
	}
	x.hash, x.rnd = spare(x.hash), spare(x.rnd)
	x.expect()
	di := make([]kd.DerivationIndex, len(x.path))
	for i := range di {
		di[i] = kd.DerivationIndex(x.path[i])
	}
	path := kd.New(di)
	s.keep("derivation path", path)
	s.keep("derivation indices", di)
	s.keep("message hash", x.hash)
	s.keep("randomness", x.rnd)
	s.keep("signing transcripts", []*dealings.IDkgTranscriptInternal{x.lkey, x.lpre, x.llam, x.lkl, x.lxl})
	idx := distinctIndices(c, n)
	m := &sigMap{}
	for _, i := range idx {
		i := i
		lam, kl, xl := x.lam.opening(i), x.kl.opening(i), x.xl.opening(i)
		s.keep(fmt.Sprintf("signing openings of %d", i), []poly.CommitmentOpening{lam, kl, xl})
		sh := x.mustShare(c, i)
		m.Set(i, sh)
		s.op("create signature share", func() []interface{} {
			y, err := sign.NewThresholdEcdsaSigShareInternal(path, x.hash, x.rnd, x.lkey, x.lpre, lam, kl, xl, K)
			return res(y, isErr(err))
		})
		s.op("verify signature share", func() []interface{} {
			return res(isErr(sh.Verify(path, x.hash, x.rnd, i, x.lkey, x.lpre, x.llam, x.lkl, x.lxl, K)), isErr(sh.Verify(path, x.hash, x.rnd, i, x.lkey, x.lpre, x.llam, x.lxl, x.lkl, K)))
		})
	}
	s.keep("signature shares", m)
	s.op("combine signature", func() []interface{} {
		y, err := sign.NewThresholdEcdsaCombinedSigInternal(path, x.hash, x.rnd, x.lkey, x.lpre, t, m, K)
		z, err2 := sign.NewThresholdEcdsaCombinedSigInternal(path, x.hash, x.rnd, x.lkey, x.lpre, n+1, m, K)
		return res(y, isErr(err), z, isErr(err2))
	})
	sg := x.sig()
	s.keep("signature", sg)
	s.op("verify signature", func() []interface{} {
		return res(isErr(sg.Verify(path, x.hash, x.rnd, x.lkey, x.lpre, K)), isErr(sg.Verify(path, x.rnd, x.hash, x.lkey, x.lpre, K)))
	})
	s.op("derive rho", func() []interface{} {
		a, b, d, p, err := sign.DeriveRho(K, x.hash, x.rnd, path, x.lkey, x.lpre)
		h, err2 := sign.ConvertHashToInteger(x.hash, K)
		e, err3 := sign.EcdsaConversion(x.lpre.ConstantTerm())
		return res(a, b, d, p, isErr(err), h, isErr(err2), e, isErr(err3))
	})
	master := &kd.MasterEcdsaPublicKey{PublicKey: spare(ref.MulG(x.x).Compressed())}
	s.keep("master key", master)
	pub := PR(c, ref.MulG(x.x))
	s.keep("public key point", pub)
	s.op("derive public key", func() []interface{} {
		y, err := sign.DerivePublicKey(master, path)
		tw, ch, err2 := path.DeriveTweak(pub)
		return res(y, isErr(err), tw, ch, isErr(err2))
	})
	next := kd.DerivationIndex(spare([]byte{1, 2, 255}))
	full := kd.DerivationIndex(spare([]byte{255, 255}))
	s.keep("derivation index", next)
	s.keep("derivation index of ones", full)
	s.op("next index", func() []interface{} { return res(next.Next(), full.Next()) })
}

// opNames lists the operation names once.
func (s *stage) opNames() []string {
	seen := map[string]bool{}
	var out []string
	for _, o := range s.ops {
		if !seen[o.name] {
			seen[o.name] = true
			out = append(out, o.name)
		}
	}
	sort.Strings(out)
	return out
}
