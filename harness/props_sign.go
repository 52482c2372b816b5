package main

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"
	"reflect"
	"sync"
	"sync/atomic"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	kd "github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C21", MinEval: 500,
		Rule: "one evaluation compares one signature share with the independently computed one, or decides one verification of an honest or altered share; distinct by share, context and alteration",
		Gens: []core.Gen{
			{Name: "honest", Quick: 60, Thorough: 2500, Run: c21honest},
			{Name: "altered", Quick: 60, Thorough: 2500, Run: c21altered},
			{Name: "kinds", Quick: 40, Thorough: 1500, Run: c21kinds},
			{Name: "vanishing", Quick: 50, Thorough: 2000, Run: c21vanishing},
			{Name: "long-altered", Quick: 10, Thorough: 300, Run: c21altered},
			{Name: "long-honest", Quick: 12, Thorough: 300, Run: c21honest},
		}})
	core.Register(&core.Prop{ID: "C22", MinEval: 300,
		Rule: "one evaluation compares the signature combined from one set of shares with the independently computed signature and verifies it, or decides one refusal; distinct by session and share set",
		Gens: []core.Gen{
			{Name: "subsets", Quick: 50, Thorough: 2000, Run: c22subsets},
			{Name: "vanishing", Quick: 30, Thorough: 1500, Run: c21vanishing},
			{Name: "inputs", Quick: 250, Thorough: 8000, Run: c22inputs},
			{Name: "many", Quick: 12, Thorough: 80, Run: c22many},
			{Name: "convert", Quick: 300, Thorough: 20000, Run: c22convert},
			{Name: "long-inputs", Quick: 30, Thorough: 800, Run: c22inputs},
		}})
	core.Register(&core.Prop{ID: "C23", MinEval: 1000,
		Rule: "one evaluation offers the verifier one honest or altered signature or context; distinct by session and alteration",
		Gens: []core.Gen{
			{Name: "altered", Quick: 120, Thorough: 5000, Run: c23altered},
			{Name: "combined", Quick: 40, Thorough: 1500, Run: c23combined},
			{Name: "zero", Quick: 30, Thorough: 800, Run: c23zero},
			{Name: "long-combined", Quick: 8, Thorough: 300, Run: c23combined},
			{Name: "long-altered", Quick: 16, Thorough: 500, Run: c23altered},
		}})
	core.Register(&core.Prop{ID: "C24", MinEval: 400,
		Rule:        "one evaluation compares one derived tweak, chain code and key, or one index successor, with the independent derivation, or decides one refusal; distinct by key and path",
		Assumptions: []string{"invalid HMAC outputs are forced by replacing the registered SHA-512 implementation inside the harness process; if the library stops using the registry the forced cases are skipped"},
		Gens: []core.Gen{
			{Name: "derive", Quick: 300, Thorough: 12000, Run: c24derive},
			{Name: "forced", Quick: 200, Thorough: 8000, Run: c24forced},
			{Name: "next", Quick: 300, Thorough: 5000, Run: c24next},
			{Name: "public", Quick: 150, Thorough: 4000, Run: c24public},
			{Name: "malformed", Quick: 60, Thorough: 2000, Run: c24malformed},
			{Name: "signing", Quick: 40, Thorough: 1500, Run: c24signing},
			{Name: "kept", Quick: 40, Thorough: 1500, Run: c24kept},
			{Name: "long-next", Quick: 30, Thorough: 500, Run: c24next},
			{Name: "long-signing", Quick: 8, Thorough: 300, Run: c24signing},
			{Name: "long-public", Quick: 30, Thorough: 800, Run: c24public},
			{Name: "long-derive", Quick: 60, Thorough: 2000, Run: c24derive},
		}})
	setups["C24"] = installHash
}

// ---------- signing sessions ----------

// session is a signing set-up of which the harness knows every secret.
type session struct {
	n, t                 int
	x, kappa, lambda     *Int
	key, pre             *pol // simple
	lam, kl, xl          *pol // pedersen
	path                 [][]byte
	hash, rnd            []byte
	lkey, lpre           *dealings.IDkgTranscriptInternal
	llam, lkl, lxl       *dealings.IDkgTranscriptInternal
	tweak                *Int
	pub                  Pt // derived public key
	randomizer, rho, kp  *Int
	theta, e, r, s, rawS *Int
}

func libPath(p [][]byte) *kd.DerivationPath {
	out := make([]kd.DerivationIndex, len(p))
	for i := range p {
		out[i] = append(kd.DerivationIndex{}, p[i]...)
	}
	return kd.New(out)
}

func genPath(c *C) [][]byte {
	if c.Long() && c.Int(4) > 0 {
		p := [][]byte{c.LongBytes()}
		for c.Int(3) > 0 && len(p) < 4 {
			b := c.Bytes(c.Int(6))
			if c.Bool() {
				p = append(p, b)
			} else {
				p = append([][]byte{b}, p...)
			}
		}
		if c.Int(3) == 0 {
			for j := range p[0] {
				p[0][j] = 0xff
			}
		}
		return p
	}
	switch c.Int(6) {
	case 0:
		return nil
	case 1: // bip32 numbers
		var p [][]byte
		for i := c.Int(5); i >= 0; i-- {
			v := uint32(c.R.Uint32())
			if c.Bool() {
				v = []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}[c.Int(5)]
			}
			p = append(p, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
		}
		return p
	}
	var p [][]byte
	for i := c.Int(4); i >= 0; i-- {
		l := []int{0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 64, 100, 128, 255, 256, 300}[c.Int(16)]
		b := c.Bytes(l)
		if c.Int(4) == 0 {
			for j := range b {
				b[j] = 0xff
			}
		}
		p = append(p, b)
	}
	return p
}

var hashLens = []int{32, 32, 32, 32, 0, 1, 16, 20, 28, 31, 33, 40, 48, 63, 64, 65, 96, 100, 255, 256, 300}

func genHash(c *C) []byte {
	h := c.Bytes(hashLens[c.Int(len(hashLens))])
	if c.Long() && c.Bool() {
		h = c.LongBytes()
	}
	switch c.Int(8) {
	case 0:
		for i := range h {
			h[i] = 0xff
		}
	case 1:
		for i := range h {
			h[i] = 0
		}
	case 2: // the group order and neighbours
		copy(h, ref.Bytes32Raw(new(big.Int).Add(ref.N, bi(int64(c.Int(3)-1)))))
	}
	return h
}

func itranscript(p *pol) *dealings.IDkgTranscriptInternal {
	return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: p.raw()}}
}
func anyTranscript(c *C, p *pol) *dealings.IDkgTranscriptInternal {
	if c.Bool() {
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: p.raw()}}
	}
	return itranscript(p)
}
func withConst(c *C, kind poly.PolynomialCommitmentType, t int, s *Int) *pol {
	p := genPol(c, kind, t, 0, nil, nil)
	p.a[0] = s
	return p
}

func genSession(c *C, n, t int) *session {
	s := &session{n: n, t: t, x: c.RandScalar(), kappa: c.RandScalar(), lambda: c.RandScalar(), path: genPath(c), hash: genHash(c), rnd: c.Bytes([]int{32, 32, 32, 0, 1, 31, 33, 64, 255, 256, 300, 5000}[c.Int(12)])}
	if c.Int(10) == 0 {
		s.rnd = nil
	} else if c.Long() && c.Int(3) > 0 {
		s.rnd = c.LongBytes()
	}
	switch c.Int(12) { // extreme secrets
	case 0:
		s.x = bi(1)
	case 1:
		s.x = ref.Neg(bi(1))
	case 2:
		s.lambda = bi(1)
	case 3:
		s.kappa = ref.Neg(bi(1))
	}
	s.build(c)
	return s
}

// build makes transcripts and expected values from the secrets.
func (s *session) build(c *C) {
	deg := func() int { return 1 + c.Int(s.t) }
	s.key, s.pre = withConst(c, poly.Simple, deg(), s.x), withConst(c, poly.Simple, deg(), s.kappa)
	s.lam, s.kl, s.xl = withConst(c, poly.Pedersen, deg(), s.lambda), withConst(c, poly.Pedersen, s.t, ref.Mul(s.kappa, s.lambda)), withConst(c, poly.Pedersen, deg(), ref.Mul(s.x, s.lambda))
	s.lkey, s.lpre = anyTranscript(c, s.key), itranscript(s.pre)
	s.llam, s.lkl, s.lxl = anyTranscript(c, s.lam), anyTranscript(c, s.kl), anyTranscript(c, s.xl)
	s.expect()
}

// expect computes everything independently.
func (s *session) expect() {
	s.tweak, _, s.pub, _ = ref.Derive(ref.MulG(s.x), s.path, ref.HMAC512)
	K0 := ref.MulG(s.kappa)
	s.randomizer = ref.NewRO("ic-crypto-tecdsa-rerandomize-presig").Bytes("randomness", s.rnd).Bytes("hashed_message", s.hash).Point("pre_sig", K0).Scalar("key_tweak", s.tweak).OutScalars(1)[0]
	s.kp = ref.Add(s.kappa, s.randomizer)
	R := ref.MulG(s.kp)
	s.rho = ref.Mod(R.X)
	s.e = ref.Mod(ref.HashInt(s.hash))
	s.theta = ref.Add(s.e, ref.Mul(s.rho, s.tweak))
	s.rawS = ref.Mul(ref.Add(s.e, ref.Mul(s.rho, ref.Add(s.x, s.tweak))), ref.Inv(s.kp))
	s.r, s.s = s.rho, s.rawS
	if s.isHigh() {
		s.s = ref.Neg(s.s)
	}
}
func (s *session) isHigh() bool {
	return s.rawS.Cmp(new(big.Int).Rsh(ref.N, 1)) > 0
}

// shareValues are the four values signer i's share must consist of.
func (s *session) shareValues(i NI) (nv, nm, dv, dm *Int) {
	lv, lm := s.lam.at(i)
	kv, km := s.kl.at(i)
	xv, xm := s.xl.at(i)
	f := func(a, b *Int) *Int { return ref.Add(ref.Mul(s.theta, a), ref.Mul(s.rho, b)) }
	g := func(a, b *Int) *Int { return ref.Add(ref.Mul(s.randomizer, a), b) }
	return f(lv, xv), f(lm, xm), g(lv, kv), g(lm, km)
}

type sigShare = sign.ThresholdEcdsaSigShareInternal
type sigMap = btree.Map[NI, *sigShare]
type sig = sign.ThresholdEcdsaCombinedSigInternal

func (s *session) share(i NI) (*sigShare, error) {
	return sign.NewThresholdEcdsaSigShareInternal(libPath(s.path), s.hash, s.rnd, s.lkey, s.lpre, s.lam.opening(i), s.kl.opening(i), s.xl.opening(i), K)
}
func (s *session) mustShare(c *C, i NI) *sigShare {
	x, err := s.share(i)
	if err != nil {
		c.Fail("NewSigShare", "signer %d: share refused (%s): %v", i, s, err)
	}
	return x
}
func (s *session) verifyShare(x *sigShare, i NI) error {
	return x.Verify(libPath(s.path), s.hash, s.rnd, i, s.lkey, s.lpre, s.llam, s.lkl, s.lxl, K)
}
func (s *session) combine(m *sigMap, t int) (*sig, error) {
	return sign.NewThresholdEcdsaCombinedSigInternal(libPath(s.path), s.hash, s.rnd, s.lkey, s.lpre, t, m, K)
}
func (s *session) verify(x *sig) error {
	return x.Verify(libPath(s.path), s.hash, s.rnd, s.lkey, s.lpre, K)
}
func (s *session) String() string {
	path := fmt.Sprintf("%x", s.path)
	if len(path) > 2000 {
		path = path[:2000] + "..."
	}
	return fmt.Sprintf("threshold %d of %d, hash of %d bytes, randomness of %d bytes, path %s", s.t, s.n, len(s.hash), len(s.rnd), path)
}
func (s *session) id() string { return fmt.Sprintf("%x/%x/%x/%x/%x", s.x, s.kappa, s.r, s.s, s.lambda) }
func (s *session) sig() *sig  { return &sig{R: S(s.r), S: S(s.s)} }

// checkSig decides a combined signature in every way.
func (s *session) checkSig(c *C, x *sig, what string) {
	c.Check(seq(x.R, s.r) && seq(x.S, s.s), "signature", "%s (%s): signature (%x, %x), want (%x, %x)", what, s, sv(x.R), sv(x.S), s.r, s.s)
	c.Check(sv(x.S).Cmp(new(big.Int).Rsh(ref.N, 1)) <= 0, "low-s", "%s (%s): s=%x is high", what, s, sv(x.S))
	c.Check(ref.ECDSAVerify(s.pub, s.hash, sv(x.R), sv(x.S)), "ecdsa", "%s (%s): the signature is not a standard ECDSA signature for the derived key", what, s)
	if err := s.verify(x); err != nil {
		c.Fail("Verify", "%s (%s): the library rejects its signature: %v", what, s, err)
	}
}

// shareLeaves finds the four scalars of an honest share by value.
func (s *session) shareLeaves(c *C, x *sigShare, i NI) []curve.EccScalar {
	ls := insp.Scalars(x)
	if len(ls) != 4 {
		panic(fmt.Sprintf("a signature share has %d scalars", len(ls)))
	}
	nv, nm, dv, dm := s.shareValues(i)
	out := make([]curve.EccScalar, 4)
	used := map[int]bool{}
	for j, w := range []*Int{nv, nm, dv, dm} {
		for k, l := range ls {
			if !used[k] && seq(l, w) {
				out[j], used[k] = l, true
				break
			}
		}
		if out[j] == nil {
			c.Fail("share", "%s: signer %d's share lacks the right %s", s, i, []string{"numerator", "numerator mask", "denominator", "denominator mask"}[j])
		}
	}
	return out
}

// ---------- C21 ----------

func c21honest(c *C) {
	n := 1 + c.Int(5)
	s := genSession(c, n, 1+c.Int(n))
	for _, i := range distinctIndices(c, n) {
		x := s.mustShare(c, i)
		s.shareLeaves(c, x, i)
		if err := s.verifyShare(x, i); err != nil {
			c.Fail("honest", "%s: honest share of signer %d rejected: %v", s, i, err)
		}
		again := s.mustShare(c, i)
		c.Check(insp.Canon(again) == insp.Canon(x), "deterministic", "%s: signer %d's share differs when made again", s, i)
		c.Ev(s.id(), int(i))
		c.Obs("honest shares accepted", 1)
	}
	c.Note("%s", s)
}

// force gives the last coefficients of p such that it takes v (and m) at i; the
// secret stays.
func (p *pol) force(i NI, v, m *Int) {
	x := X(i)
	xt := ref.Inv(powInt(x, len(p.a)-1))
	have, mask := p.at(i)
	p.a[len(p.a)-1] = ref.Add(p.a[len(p.a)-1], ref.Mul(ref.Sub(v, have), xt))
	if m != nil {
		p.b[len(p.b)-1] = ref.Add(p.b[len(p.b)-1], ref.Mul(ref.Sub(m, mask), xt))
	}
}

func powInt(x *Int, k int) *Int {
	r := bi(1)
	for ; k > 0; k-- {
		r = ref.Mul(r, x)
	}
	return r
}

// c21vanishing: openings which are zero, or make parts of the share zero or equal,
// at some signers. The shares are correct ones, and combine as any others.
func c21vanishing(c *C) {
	n := 2 + c.Int(3)
	t := 2 + c.Int(n-1)
	s := genSession(c, n, t)
	s.lam, s.kl, s.xl = withConst(c, poly.Pedersen, t, s.lambda), withConst(c, poly.Pedersen, t, ref.Mul(s.kappa, s.lambda)), withConst(c, poly.Pedersen, t, ref.Mul(s.x, s.lambda))
	idx := distinctIndices(c, n)
	s.expect()
	i := idx[c.Int(n)]
	what := ""
	zero := func(p *pol) { // value, mask, or both
		v, m := p.at(i)
		switch c.Int(4) {
		case 0:
			v = bi(0)
		case 1:
			m = bi(0)
		default:
			v, m = bi(0), bi(0)
		}
		p.force(i, v, m)
	}
	mode := c.I % 8
	switch mode {
	case 0:
		what = "lambda zero"
		zero(s.lam)
	case 1:
		what = "kappa times lambda zero"
		zero(s.kl)
	case 2:
		what = "key times lambda zero"
		zero(s.xl)
	case 3:
		what = "all zero"
		for _, p := range []*pol{s.lam, s.kl, s.xl} {
			p.force(i, bi(0), bi(0))
		}
	default:
		lv, lm := s.lam.at(i)
		num := func(z *Int) *Int { return ref.Neg(ref.Mul(ref.Mul(s.theta, z), ref.Inv(s.rho))) }
		den := func(z *Int) *Int { return ref.Neg(ref.Mul(s.randomizer, z)) }
		if mode == 4 || mode == 6 {
			what += "numerator zero "
			s.xl.force(i, num(lv), num(lm))
		}
		if mode == 5 || mode == 6 {
			what += "denominator zero"
			s.kl.force(i, den(lv), den(lm))
		}
		if mode == 7 {
			what = "numerator equal to denominator"
			nv, nm, _, _ := s.shareValues(i)
			s.kl.force(i, ref.Add(nv, den(lv)), ref.Add(nm, den(lm)))
		}
	}
	s.llam, s.lkl, s.lxl = anyTranscript(c, s.lam), anyTranscript(c, s.kl), anyTranscript(c, s.xl)
	m := &sigMap{}
	for _, j := range idx {
		x := s.mustShare(c, j)
		s.shareLeaves(c, x, j)
		if err := s.verifyShare(x, j); err != nil {
			c.Fail("honest", "%s, %s at signer %d: honest share of signer %d rejected: %v", s, what, i, j, err)
		}
		k := c.Int(4)
		y := insp.Clone(x).(*sigShare)
		l := s.shareLeaves(c, y, j)[k]
		l.Add(l, S(bi(1)))
		c.Check(s.verifyShare(y, j) != nil, "accepts", "%s, %s at %d: share of signer %d accepted with scalar %d changed", s, what, i, j, k)
		m.Set(j, x)
		c.Ev(s.id(), what, int(j))
	}
	x, err := s.combine(m, t)
	if err != nil {
		c.Fail("Combine", "%s, %s at signer %d: correct shares refused: %v", s, what, i, err)
	}
	s.checkSig(c, x, what)
	c.Obs("sessions with "+what, 1)
	c.Note("%s, %s at signer %d of %v", s, what, i, idx)
}

func c21altered(c *C) {
	n := 1 + c.Int(4)
	s := genSession(c, n, 1+c.Int(n))
	i := NI(c.Index())
	x := s.mustShare(c, i)
	if err := s.verifyShare(x, i); err != nil {
		c.Fail("honest", "%s: honest share of signer %d rejected: %v", s, i, err)
	}
	nv, nm, dv, dm := s.shareValues(i)
	mk := func() (*sigShare, []curve.EccScalar) {
		y := insp.Clone(x).(*sigShare)
		return y, s.shareLeaves(c, y, i)
	}
	offerCtx := func(what string, y *sigShare, q *session, j NI) {
		var err error
		c.NoPanic("crash", "share with "+what, func() { err = q.verifyShare(y, j) })
		if err == nil {
			c.Fail("accepts", "%s: share of signer %d accepted with %s", s, i, what)
		}
		c.Ev(what, s.id(), int(i), insp.Canon(y))
		c.Obs("rejected: "+what, 1)
	}
	offer := func(what string, y *sigShare) { offerCtx(what, y, s, i) }
	names := []string{"the numerator", "the numerator mask", "the denominator", "the denominator mask"}
	for j := 0; j < 4; j++ {
		for _, d := range []*Int{bi(1), ref.Neg(bi(1)), c.RandScalar()} {
			y, l := mk()
			l[j].Add(l[j], S(d))
			offer(names[j]+" changed", y)
		}
		if y, l := mk(); l[j].IsZero() != 1 {
			l[j].Assign(S(bi(0)))
			offer(names[j]+" zero", y)
			y, l = mk()
			l[j].Negate(l[j])
			offer(names[j]+" negated", y)
		}
		for k := 0; k < j; k++ {
			y, l := mk()
			if l[j].Equal(l[k]) == 1 {
				continue
			}
			v := l[j].Clone()
			l[j].Assign(l[k])
			l[k].Assign(v)
			offer(names[k]+" and "+names[j]+" swapped", y)
		}
	}
	// both parts scaled (the same quotient)
	y, l := mk()
	f := S(bi(2))
	for j := range l {
		l[j].Mul(l[j], f)
	}
	offer("numerator and denominator scaled", y)
	// shifted along the commitment (value and mask changed together)
	y, l = mk()
	d := c.RandScalar()
	l[0].Add(l[0], S(d))
	l[1].Sub(l[1], S(d))
	offer("value and mask shifted against each other", y)
	// changes of several parts that cancel in linear combinations of the two
	// equations with factors an attacker knows
	factors := []struct {
		name string
		f    *Int
	}{{"1", bi(1)}, {"-1", ref.Neg(bi(1))}, {"rho", s.rho}, {"-rho", ref.Neg(s.rho)}, {"the randomizer", s.randomizer}, {"theta", s.theta},
		{"the tweak", s.tweak}, {"the hash", s.e}, {"2", bi(2)}, {"1/2", ref.Inv(bi(2))}, {"the index", X(i)}}
	for _, fa := range factors {
		fn, f := fa.name, fa.f
		if f.Sign() == 0 {
			continue
		}
		for a := 0; a < 4; a++ {
			for b := 0; b < 4; b++ {
				if a == b || (a+b)%2 == 1 && c.Int(3) > 0 {
					continue
				}
				y, l := mk()
				d := c.RandScalar()
				l[a].Add(l[a], S(d))
				l[b].Sub(l[b], S(ref.Mul(f, d)))
				offer(names[a]+" and "+names[b]+" changed against each other by "+fn, y)
			}
		}
		// value and mask of both parts at once
		y, l := mk()
		d, e := c.RandScalar(), c.RandScalar()
		l[0].Add(l[0], S(d))
		l[1].Add(l[1], S(e))
		l[2].Sub(l[2], S(ref.Mul(f, d)))
		l[3].Sub(l[3], S(ref.Mul(f, e)))
		offer("both parts changed against each other by "+fn, y)
	}
	// the same point up to sign or up to the endomorphism of the curve
	for _, u := range units {
		what, f := u.name, u.f
		for part := 0; part < 3; part++ {
			y, l := mk()
			zero := true
			for j := range l {
				if part == 2 || j/2 == part {
					zero = zero && l[j].IsZero() == 1
					l[j].Mul(l[j], S(f))
				}
			}
			if !zero {
				offer([]string{"the numerator", "the denominator", "the share"}[part]+" "+what, y)
			}
		}
	}
	// other signers
	for _, j := range append(distinctIndices(c, 3), i+1, i^256, i^(1<<16)) {
		a, b, e, g := s.shareValues(j)
		if j == i || (a.Cmp(nv) == 0 && b.Cmp(nm) == 0 && e.Cmp(dv) == 0 && g.Cmp(dm) == 0) {
			continue
		}
		offerCtx("another signer's index", x, s, j)
	}
	// contexts
	for what, f := range s.contexts(c) {
		q := *s
		f(&q)
		if (what == "another key" || what == "the negated key" || what == "the key of the same y") && len(s.path) == 0 {
			continue // the key enters a share's equation through the tweak only
		}
		offerCtx(what, x, &q, i)
	}
	// transcripts
	for what, tr := range map[string]func(*session, *pol){"another lambda transcript": func(q *session, p *pol) { q.llam = anyTranscript(c, p) },
		"another kappa-lambda transcript": func(q *session, p *pol) { q.lkl = anyTranscript(c, p) },
		"another key-lambda transcript":   func(q *session, p *pol) { q.lxl = anyTranscript(c, p) }} {
		src := map[string]*pol{"another lambda transcript": s.lam, "another kappa-lambda transcript": s.kl, "another key-lambda transcript": s.xl}[what]
		for v := 0; v < 3; v++ {
			p := &pol{kind: src.kind, a: append([]*Int{}, src.a...), b: append([]*Int{}, src.b...)}
			j := c.Int(len(p.a))
			switch v {
			case 0:
				p.a[j] = ref.Add(p.a[j], c.RandScalar())
			case 1:
				p.b[j] = ref.Add(p.b[j], bi(1))
			default:
				p = genPol(c, poly.Pedersen, s.t, 0, nil, nil)
			}
			q := *s
			tr(&q, p)
			if (what == "another lambda transcript" && s.theta.Sign() == 0 && s.randomizer.Sign() == 0) || s.rho.Sign() == 0 {
				continue
			}
			offerCtx(what, x, &q, i)
		}
	}
	q := *s
	q.lkl, q.lxl = s.lxl, s.lkl
	offerCtx("the product transcripts swapped", x, &q, i)
	q = *s
	q.llam, q.lkl = s.lkl, s.llam
	offerCtx("lambda and kappa-lambda transcripts swapped", x, &q, i)
	c.Note("%s signer %d", s, i)
}

// contexts are single changes of what a share or signature is bound to.
func (s *session) contexts(c *C) map[string]func(*session) {
	out := map[string]func(*session){
		"another key":                         func(q *session) { q.lkey = anyTranscript(c, withConst(c, poly.Simple, s.t, c.RandScalar())) },
		"the negated key":                     func(q *session) { q.lkey = anyTranscript(c, withConst(c, poly.Simple, s.t, ref.Neg(s.x))) },
		"another presignature":                func(q *session) { q.lpre = itranscript(withConst(c, poly.Simple, s.t, c.RandScalar())) },
		"the negated presignature":            func(q *session) { q.lpre = itranscript(withConst(c, poly.Simple, s.t, ref.Neg(s.kappa))) },
		"the key of the same y":               func(q *session) { q.lkey = anyTranscript(c, withConst(c, poly.Simple, s.t, ref.Mul(s.x, ref.Lambda))) },
		"the presignature of the same y":      func(q *session) { q.lpre = itranscript(withConst(c, poly.Simple, s.t, ref.Mul(s.kappa, ref.Lambda))) },
		"the presignature plus G":             func(q *session) { q.lpre = itranscript(withConst(c, poly.Simple, s.t, ref.Add(s.kappa, bi(1)))) },
		"the path extended":                   func(q *session) { q.path = append(append([][]byte{}, s.path...), []byte{0, 0, 0, 0}) },
		"the path extended by an empty index": func(q *session) { q.path = append(append([][]byte{}, s.path...), []byte{}) },
		"key as presignature":                 func(q *session) { q.lpre = itranscript(s.key) },
	}
	for w, h := range adVariants(c, s.hash) {
		h := h
		out["message hash "+w] = func(q *session) { q.hash = h }
	}
	for w, h := range adVariants(c, s.rnd) {
		h := h
		out["randomness "+w] = func(q *session) { q.rnd = h }
	}
	out["a zero byte before the hash"] = func(q *session) { q.hash = append([]byte{0}, s.hash...) }
	out["a zero byte after the hash"] = func(q *session) { q.hash = append(append([]byte{}, s.hash...), 0) }
	if !bytes.Equal(s.hash, s.rnd) {
		out["hash and randomness swapped"] = func(q *session) { q.hash, q.rnd = s.rnd, s.hash }
	}
	out["a byte moved from randomness to hash"] = func(q *session) {
		q.hash = append(append([]byte{}, s.hash...), 1)
		if len(s.rnd) > 0 {
			q.hash = append(append([]byte{}, s.hash...), s.rnd[0])
			q.rnd = s.rnd[1:]
		}
	}
	if len(s.hash) > 32 {
		out["the hash cut to 32 bytes"] = func(q *session) { q.hash = s.hash[:32] }
	}
	if len(s.path) > 0 {
		k := c.Int(len(s.path))
		cp := func() [][]byte { return append([][]byte{}, s.path...) }
		out["the path cut"] = func(q *session) { q.path = s.path[:len(s.path)-1] }
		out["an index one longer"] = func(q *session) { q.path = cp(); q.path[k] = append([]byte{0}, s.path[k]...) }
		out["the next index"] = func(q *session) { q.path = cp(); q.path[k] = ref.NextIndex(s.path[k]) }
		if len(s.path[k]) > 0 {
			for w, v := range adVariants(c, s.path[k]) {
				v := v
				if len(s.path[k]) > 1<<12 {
					out["an index: "+w] = func(q *session) { q.path = cp(); q.path[k] = v }
				}
			}
			out["an index byte changed"] = func(q *session) {
				q.path = cp()
				q.path[k] = append([]byte{}, s.path[k]...)
				q.path[k][c.Int(len(s.path[k]))] ^= 1 << uint(c.Int(8))
			}
			out["an index one shorter"] = func(q *session) { q.path = cp(); q.path[k] = s.path[k][1:] }
		}
		if len(s.path) > 1 && !bytes.Equal(s.path[0], s.path[1]) {
			out["two indices swapped"] = func(q *session) { q.path = cp(); q.path[0], q.path[1] = q.path[1], q.path[0] }
			out["two indices joined"] = func(q *session) {
				q.path = append([][]byte{append(append([]byte{}, s.path[0]...), s.path[1]...)}, s.path[2:]...)
			}
		}
	}
	return out
}

var openingT = reflect.TypeOf((*poly.CommitmentOpening)(nil)).Elem()

func c21kinds(c *C) {
	n := 1 + c.Int(4)
	s := genSession(c, n, 1+c.Int(n))
	i := NI(c.Index())
	x := s.mustShare(c, i)
	ops := []*pol{s.lam, s.kl, s.xl}
	names := []string{"lambda", "kappa times lambda", "key times lambda"}
	for j := range ops {
		v, w := ops[j].at(i)
		for what, o := range map[string]poly.CommitmentOpening{
			"a simple opening":            mkOpening(poly.Simple, v, nil),
			"a simple opening by pointer": ptrOpening(poly.Simple, v, nil),
			"no opening":                  nil,
			"an opening without mask":     poly.PedersenCommitmentOpening{S(v), nil},
			"an opening without value":    poly.PedersenCommitmentOpening{nil, S(w)},
			"an empty opening":            poly.PedersenCommitmentOpening{},
			"a nil pedersen pointer":      (*poly.PedersenCommitmentOpening)(nil),
		} {
			os := []poly.CommitmentOpening{s.lam.opening(i), s.kl.opening(i), s.xl.opening(i)}
			os[j] = o
			var y *sigShare
			var err error
			c.NoPanic("crash", what+" as "+names[j], func() {
				y, err = sign.NewThresholdEcdsaSigShareInternal(libPath(s.path), s.hash, s.rnd, s.lkey, s.lpre, os[0], os[1], os[2], K)
			})
			c.Check(err != nil && y == nil, "create", "share created from %s as %s", what, names[j])
			c.Ev(what, j, s.id(), int(i))
			c.Obs("not created from "+what, 1)
		}
		os := []poly.CommitmentOpening{s.lam.opening(i), s.kl.opening(i), s.xl.opening(i)}
		os[j] = ptrOpening(poly.Pedersen, v, w)
		y, err := sign.NewThresholdEcdsaSigShareInternal(libPath(s.path), s.hash, s.rnd, s.lkey, s.lpre, os[0], os[1], os[2], K)
		if err == nil {
			s.shareLeaves(c, y, i)
			c.Check(s.verifyShare(y, i) == nil, "create", "a share made from a deserialized opening is wrong")
		}
		c.Ev("pointer", j, s.id(), int(i))
	}
	// shares whose parts are missing or of another kind
	fields := insp.Fields(x, openingT)
	if len(fields) == 2 {
		nv, nm, dv, dm := s.shareValues(i)
		for j, p := range [][2]*Int{{nv, nm}, {dv, dm}} {
			for what, o := range map[string]poly.CommitmentOpening{
				"a simple opening":            mkOpening(poly.Simple, p[0], nil),
				"a simple opening by pointer": ptrOpening(poly.Simple, p[0], nil),
				"nothing":                     nil,
				"an opening without mask":     poly.PedersenCommitmentOpening{S(p[0]), nil},
				"an opening without value":    poly.PedersenCommitmentOpening{nil, S(p[1])},
				"a wrong opening by pointer":  ptrOpening(poly.Pedersen, ref.Add(p[0], bi(1)), p[1]),
			} {
				y := insp.Clone(x).(*sigShare)
				f := insp.Fields(y, openingT)[j]
				if o == nil {
					f.Set(reflect.Zero(openingT))
				} else {
					f.Set(reflect.ValueOf(o))
				}
				var err error
				c.NoPanic("crash", "a share with "+what, func() { err = s.verifyShare(y, i) })
				c.Check(err != nil, "accepts", "%s: a share with %s in place of part %d is accepted", s, what, j)
				c.Ev("part", what, j, s.id())
				c.Obs("rejected part: "+what, 1)
			}
		}
		y := &sigShare{}
		var err error
		c.NoPanic("crash", "an empty share", func() { err = s.verifyShare(y, i) })
		c.Check(err != nil, "accepts", "an empty share is accepted")
		c.Ev("empty", s.id())
	}
	c.Note("%s signer %d", s, i)
}

// ---------- C22 ----------

func c22subsets(c *C) {
	n := 1 + c.Int(5)
	t := 1 + c.Int(n)
	s := genSession(c, n, t)
	idx := distinctIndices(c, n)
	shares := make([]*sigShare, n)
	for j, i := range idx {
		shares[j] = s.mustShare(c, i)
	}
	for mask := 0; mask < 1<<uint(n); mask++ {
		m := &sigMap{}
		for _, j := range c.R.Perm(n) {
			if mask>>uint(j)&1 == 1 {
				m.Set(idx[j], shares[j])
			}
		}
		var x *sig
		var err error
		c.NoPanic("crash", fmt.Sprintf("combining %d shares", m.Len()), func() { x, err = s.combine(m, t) })
		if m.Len() < t {
			c.Check(err != nil && x == nil, "threshold", "%s: %d shares combined", s, m.Len())
			c.Obs("refused share sets", 1)
		} else {
			if err != nil {
				c.Fail("Combine", "%s: %d correct shares refused: %v", s, m.Len(), err)
			}
			s.checkSig(c, x, fmt.Sprintf("%d shares", m.Len()))
			c.Obs("sufficient share sets", 1)
		}
		c.Ev(s.id(), mask)
	}
	c.Note("%s signers %v, all %d share sets", s, idx, 1<<uint(n))
}

func c22inputs(c *C) {
	n := 1 + c.Int(3)
	t := 1 + c.Int(n)
	s := genSession(c, n, t)
	if c.I < 66 { // every hash length once
		s.hash = c.Bytes(c.I)
		s.expect()
	}
	m := &sigMap{}
	for _, i := range distinctIndices(c, t+c.Int(2)) {
		m.Set(i, s.mustShare(c, i))
	}
	x, err := s.combine(m, t)
	if err != nil {
		c.Fail("Combine", "%s: %d correct shares refused: %v", s, m.Len(), err)
	}
	s.checkSig(c, x, "signature")
	pk, err := sign.DerivePublicKey(&kd.MasterEcdsaPublicKey{PublicKey: ref.MulG(s.x).Compressed()}, libPath(s.path))
	c.Check(err == nil && bytes.Equal(pk.PublicKey, s.pub.Compressed()), "DerivePublicKey", "%s: derived key %x, want %x (%v)", s, pk, s.pub.Compressed(), err)
	if s.isHigh() {
		c.Obs("s was high before normalization", 1)
	} else {
		c.Obs("s was low before normalization", 1)
	}
	if len(s.hash) != 32 {
		c.Obs("hashes of other lengths than 32", 1)
	}
	c.Ev(s.id(), s.hash, s.rnd)
	c.Note("%s", s)
}

// c22convert: r is the x coordinate of the nonce point modulo n (also for the
// points whose x is not below n, which no session reaches), the hash integer
// is the leftmost 256 bits modulo n.
func c22convert(c *C) {
	p := c.Point()
	if c.Int(3) == 0 {
		p = c.EdgePoint()
	}
	var r curve.EccScalar
	var err error
	lp := PR(c, p)
	before := insp.Canon(lp)
	c.NoPanic("crash", "EcdsaConversion", func() { r, err = sign.EcdsaConversion(lp) })
	if !p.Inf {
		if err != nil {
			c.Fail("EcdsaConversion", "no r for the point with x = %x: %v", p.X, err)
		}
		c.Check(r.BigInt().Cmp(ref.Mod(p.X)) == 0, "EcdsaConversion", "r of the point with x = %x is %x, want x mod n", p.X, r.BigInt())
		c.Check(insp.Canon(lp) == before, "EcdsaConversion", "the point was changed")
		c.Ev("r", p.X, p.Y)
		if p.X.Cmp(ref.N) >= 0 {
			c.Obs("points with x not below n", 1)
		}
	}
	h := c.Bytes(c.I % 140)
	switch c.Int(6) {
	case 0:
		for i := range h {
			h[i] = 0xff
		}
	case 1: // n + k, followed by anything
		h = append(new(Int).Add(ref.N, bi(int64(c.Int(3)-1))).FillBytes(make([]byte, 32)), h...)
	case 2:
		for i := 0; i < len(h)/2; i++ {
			h[i] = 0
		}
	}
	e, err := sign.ConvertHashToInteger(h, K)
	if err != nil {
		c.Fail("ConvertHashToInteger", "hash of %d bytes refused: %v", len(h), err)
	}
	c.Check(e.BigInt().Cmp(ref.Mod(ref.HashInt(h))) == 0, "ConvertHashToInteger", "hash %x gives %x, want %x", h, e.BigInt(), ref.Mod(ref.HashInt(h)))
	c.Ev("e", h, c.I)
	c.Obs("hash conversions", 1)
}

func c22many(c *C) {
	n := 20 + c.Int(53)
	t := 1 + c.Int(9)
	if c.Bool() {
		t = 7 + c.Int(n-7)
	}
	s := genSession(c, n, t)
	m := &sigMap{}
	idx := distinctIndices(c, n)
	for j, i := range idx {
		if j == t-1 {
			x, err := s.combine(m, t)
			c.Check(err != nil && x == nil, "threshold", "%s: %d shares combined", s, m.Len())
		}
		m.Set(i, s.mustShare(c, i))
		if j >= t-1 {
			x, err := s.combine(m, t)
			if err != nil {
				c.Fail("Combine", "%s: %d correct shares refused: %v", s, m.Len(), err)
			}
			s.checkSig(c, x, fmt.Sprintf("%d shares", m.Len()))
			c.Ev(s.id(), j)
		}
	}
	c.Note("%s", s)
}

// ---------- C23 ----------

func c23altered(c *C) {
	n := 1 + c.Int(3)
	s := genSession(c, n, 1+c.Int(n))
	good := s.sig()
	if err := s.verify(good); err != nil {
		c.Fail("Verify", "%s: a correct signature is rejected: %v", s, err)
	}
	c.Ev("honest", s.id())
	offer := func(what string, r, v *Int, q *session) {
		x := &sig{R: S(r), S: S(v)}
		var err error
		c.NoPanic("crash", what, func() { err = q.verify(x) })
		if err == nil {
			c.Fail("accepts", "%s: signature accepted with %s", s, what)
		}
		c.Ev(what, s.id(), r, v)
		c.Obs("rejected: "+what, 1)
	}
	// reshared transcripts carry the same key
	q := *s
	q.lkey, q.lpre = anyTranscript(c, withConst(c, poly.Simple, 1+c.Int(4), s.x)), itranscript(withConst(c, poly.Simple, 1+c.Int(4), s.kappa))
	c.Check(q.verify(good) == nil, "Verify", "%s: rejected with a reshared key", s)
	one, n1 := bi(1), ref.Neg(bi(1))
	// r, s altered
	offer("s replaced by n-s", s.r, ref.Neg(s.s), s)
	offer("r replaced by n-r", ref.Neg(s.r), s.s, s)
	offer("both negated", ref.Neg(s.r), ref.Neg(s.s), s)
	offer("r and s swapped", s.s, s.r, s)
	for _, u := range units[1:] {
		offer("r "+u.name, ref.Mul(s.r, u.f), s.s, s)
		offer("s "+u.name, s.r, ref.Mul(s.s, u.f), s)
		offer("r and s "+u.name, ref.Mul(s.r, u.f), ref.Mul(s.s, u.f), s)
	}
	for _, d := range []*Int{one, n1, c.RandScalar()} {
		offer("r changed", ref.Add(s.r, d), s.s, s)
		offer("s changed", s.r, ref.Add(s.s, d), s)
	}
	for _, z := range []*Int{bi(0), one, n1, s.e, s.kp, s.x} {
		if z.Cmp(s.r) != 0 {
			offer("r replaced", z, s.s, s)
		}
		if z.Cmp(s.s) != 0 {
			offer("s replaced", s.r, z, s)
		}
	}
	offer("both zero", bi(0), bi(0), s)
	offer("s inverted", s.r, ref.Inv(s.s), s)
	// valid ECDSA signatures bound to another presignature
	for j := 0; j < 3; j++ {
		k := c.RandScalar()
		switch j {
		case 1: // the presignature without re-randomization
			k = s.kappa
		case 2:
			k = s.randomizer
		}
		R := ref.MulG(k)
		r := ref.Mod(R.X)
		v := ref.Mul(ref.Add(s.e, ref.Mul(r, ref.Add(s.x, s.tweak))), ref.Inv(k))
		if v.Cmp(new(big.Int).Rsh(ref.N, 1)) > 0 {
			v = ref.Neg(v)
		}
		if !ref.ECDSAVerify(s.pub, s.hash, r, v) {
			panic("not a valid ECDSA signature")
		}
		offer("an ECDSA signature bound to another presignature", r, v, s)
	}
	// the s for the underived key, and for another hash with the same randomizer
	v := ref.Mul(ref.Add(s.e, ref.Mul(s.rho, s.x)), ref.Inv(s.kp))
	for _, w := range []*Int{v, ref.Neg(v)} {
		if len(s.path) > 0 {
			offer("a signature of the underived key", s.r, w, s)
		}
	}
	v = ref.Mul(ref.Add(ref.Add(s.e, one), ref.Mul(s.rho, ref.Add(s.x, s.tweak))), ref.Inv(s.kp))
	for _, w := range []*Int{v, ref.Neg(v)} {
		offer("a signature of another message", s.r, w, s)
	}
	v = ref.Mul(ref.Add(s.e, ref.Mul(s.rho, ref.Add(s.x, s.tweak))), ref.Inv(s.kappa))
	for _, w := range []*Int{v, ref.Neg(v)} {
		offer("a signature with the unrandomized nonce", s.r, w, s)
	}
	// contexts
	for what, f := range s.contexts(c) {
		q := *s
		f(&q)
		if what == "the negated key" && len(s.path) == 0 && s.e.Sign() == 0 {
			continue // an ECDSA signature of zero is one under the negated key too
		}
		offer(what, s.r, s.s, &q)
	}
	c.Note("%s", s)
}

// c23combined: signatures combined from wrong shares or for other contexts.
func c23combined(c *C) {
	n := 2 + c.Int(3)
	t := 1 + c.Int(n)
	s := genSession(c, n, t)
	idx := distinctIndices(c, n)
	mk := func(f func(j int, x *sigShare) *sigShare) *sigMap {
		m := &sigMap{}
		for j, i := range idx[:t] { // exactly the threshold: every share counts
			x := s.mustShare(c, i)
			if f != nil {
				x = f(j, x)
			}
			m.Set(i, x)
		}
		return m
	}
	x, err := s.combine(mk(nil), t)
	c.Check(err == nil, "Combine", "%v", err)
	s.checkSig(c, x, "all shares")
	other := genSession(c, n, t)
	b := c.Int(t)
	for what, f := range map[string]func(j int, x *sigShare) *sigShare{
		"a wrong numerator": func(j int, x *sigShare) *sigShare {
			if j == b {
				l := s.shareLeaves(c, x, idx[j])
				l[0].Add(l[0], S(c.RandScalar()))
			}
			return x
		},
		"a wrong denominator": func(j int, x *sigShare) *sigShare {
			if j == b {
				l := s.shareLeaves(c, x, idx[j])
				l[2].Add(l[2], S(c.RandScalar()))
			}
			return x
		},
		"a share of another session": func(j int, x *sigShare) *sigShare {
			if j == b {
				return other.mustShare(c, idx[j])
			}
			return x
		},
	} {
		var y *sig
		var err, verr error
		c.NoPanic("crash", what, func() {
			y, err = s.combine(mk(f), t)
			if err == nil {
				verr = s.verify(y)
			}
		})
		// the signature itself decides: the right one may come out all the same
		right := err == nil && sv(y.R).Cmp(sv(x.R)) == 0 && sv(y.S).Cmp(sv(x.S)) == 0
		c.Check(right || err != nil || verr != nil, "accepts", "%s: a signature combined from %s verifies", s, what)
		c.Ev(what, s.id())
		c.Obs("rejected: combined from "+what, 1)
	}
	q := *s
	q.hash = mutAD(c, s.hash)
	y, err := q.combine(mk(nil), t)
	c.Check(err != nil || q.verify(y) != nil, "accepts", "shares of one message make a signature of another")
	c.Check(err != nil || s.verify(y) != nil, "accepts", "a signature combined for another message verifies")
	c.Ev("other message", s.id())
	c.Note("%s", s)
}

// c23zero: a key for which s would be zero.
func c23zero(c *C) {
	n := 1 + c.Int(3)
	t := 1 + c.Int(n)
	s := genSession(c, n, t)
	s.path = nil
	s.expect()
	s.x = ref.Neg(ref.Mul(s.e, ref.Inv(s.rho)))
	if s.x.Sign() == 0 {
		return
	}
	s.build(c)
	if s.s.Sign() != 0 {
		panic("s is not zero")
	}
	m := &sigMap{}
	for _, i := range distinctIndices(c, t) {
		m.Set(i, s.mustShare(c, i))
	}
	c.NoPanic("crash", "a signature with s = 0", func() {
		x, err := s.combine(m, t)
		if err == nil {
			c.Check(s.verify(x) != nil, "accepts", "%s: a signature with s=%x is accepted", s, sv(x.S))
		}
		for _, r := range []*Int{s.r, bi(0), bi(1)} {
			for _, v := range []*Int{bi(0), bi(1), c.RandScalar()} {
				c.Check(s.verify(&sig{R: S(r), S: S(v)}) != nil, "accepts", "%s: (%x, %x) is accepted", s, r, v)
				c.Ev("zero", s.id(), r, v)
			}
		}
	})
	c.Obs("sessions with s = 0", 1)
}

// ---------- C24 ----------

// The registered SHA-512 is replaced by one whose digests the harness can force.
var (
	forcedDigest sync.Map // natural digest -> forced digest
	hashCalls    int64
	hashHooked   bool
)

type fhash struct{ hash.Hash }

func (f fhash) Sum(b []byte) []byte {
	atomic.AddInt64(&hashCalls, 1)
	d := f.Hash.Sum(nil)
	if v, ok := forcedDigest.Load(string(d)); ok {
		d = v.([]byte)
	}
	return append(b, d...)
}
func installHash() {
	crypto.RegisterHash(crypto.SHA512, func() hash.Hash { return fhash{sha512.New()} })
	before := atomic.LoadInt64(&hashCalls)
	libPath([][]byte{{1}}).DeriveTweak(P(ref.G))
	hashHooked = atomic.LoadInt64(&hashCalls) > before
}
func forcedHMAC(k, msg []byte) []byte {
	m := hmac.New(sha512.New, k)
	m.Write(msg)
	d := m.Sum(nil)
	if v, ok := forcedDigest.Load(string(d)); ok {
		return v.([]byte)
	}
	return d
}

func genMaster(c *C) *Int {
	if c.Int(4) == 0 {
		for {
			if x := c.Scalar(); x.Sign() != 0 {
				return x
			}
		}
	}
	return c.RandScalar()
}

func checkDerive(c *C, x *Int, path [][]byte, hm ref.HMACFunc, what string) int {
	pk := ref.MulG(x)
	tweak, chain, pub, retries := ref.Derive(pk, path, hm)
	var t curve.EccScalar
	var ch []byte
	var err error
	lp := libPath(path)
	c.NoPanic("crash", what, func() { t, ch, err = lp.DeriveTweak(PR(c, pk)) })
	if err != nil {
		c.Fail("DeriveTweak", "%s of key %x path %x: %v", what, pk.Compressed(), path, err)
	}
	c.Check(seq(t, tweak), "tweak", "%s of key %x path %x: tweak %x, want %x (%d skipped indices)", what, pk.Compressed(), path, sv(t), tweak, retries)
	c.Check(bytes.Equal(ch, chain), "chain", "%s of key %x path %x: chain code %x, want %x (%d skipped indices)", what, pk.Compressed(), path, ch, chain, retries)
	c.Check(pub.Equal(pk.Add(ref.MulG(tweak))), "model", "model broken")
	d, err := sign.DerivePublicKey(&kd.MasterEcdsaPublicKey{PublicKey: pk.Compressed()}, lp)
	c.Check(err == nil, "DerivePublicKey", "%s of key %x path %x: %v", what, pk.Compressed(), path, err)
	c.Check(bytes.Equal(d.PublicKey, pub.Compressed()) && bytes.Equal(d.ChainKey, chain), "DerivePublicKey", "%s of key %x path %x: key %x chain %x, want %x %x (%d skipped indices)", what, pk.Compressed(), path, d.PublicKey, d.ChainKey, pub.Compressed(), chain, retries)
	// again: the path is not used up
	t2, ch2, err := lp.DeriveTweak(P(pk))
	c.Check(err == nil && seq(t2, tweak) && bytes.Equal(ch2, chain), "repeat", "%s of path %x differs the second time", what, path)
	c.Ev(what, pk, fmt.Sprintf("%x", path), len(path))
	return retries
}

func c24derive(c *C) {
	path := genPath(c)
	if c.Int(20) == 0 {
		path = nil
		for i := 0; i < 40; i++ {
			path = append(path, c.Bytes(c.Int(6)))
		}
	}
	x := genMaster(c)
	checkDerive(c, x, path, ref.HMAC512, "derivation")
	if len(path) == 0 {
		c.Obs("empty paths", 1)
	}
	for _, i := range path {
		if len(i) == 0 {
			c.Obs("empty indices", 1)
		}
		if len(i) > 64 {
			c.Obs("indices over 64 bytes", 1)
		}
	}
	// NewBip32 is the path of 4-byte big-endian numbers
	var nums []uint32
	var p [][]byte
	steps := c.Int(4)
	switch c.Int(8) {
	case 0:
		steps = c.Int(40)
	case 1:
		steps = 255 + c.Int(3) // the BIP32 depth is one byte
	}
	if c.I == 0 {
		steps = 9
	}
	for i := steps; i > 0; i-- {
		v := c.R.Uint32() >> uint(c.Int(32))
		nums, p = append(nums, v), append(p, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	}
	c.Obs("NewBip32 steps", steps)
	before := fmt.Sprint(nums)
	lib := kd.NewBip32(nums)
	t, ch, err := lib.DeriveTweak(P(ref.MulG(x)))
	c.Check(before == fmt.Sprint(nums), "bip32", "NewBip32 or the derivation changed the caller's numbers")
	want, chain, _, _ := ref.Derive(ref.MulG(x), p, ref.HMAC512)
	c.Check(err == nil && seq(t, want) && bytes.Equal(ch, chain), "bip32", "NewBip32(%v) differs from the path of its big-endian indices", nums)
	if len(nums) > 0 && len(nums) < 50 { // the path does not follow later changes of the numbers
		for i := range nums {
			nums[i] ^= 1 << uint(c.Int(32))
		}
		t, _, err = lib.DeriveTweak(P(ref.MulG(x)))
		c.Check(err == nil && seq(t, want), "bip32", "a NewBip32 path changes with the caller's slice")
	}
	c.Ev("bip32", x, fmt.Sprint(nums))
	c.Note("key %x path %x", x, path)
}

// c24forced forces invalid HMAC outputs at chosen steps.
func c24forced(c *C) {
	if !hashHooked {
		c.Ev()
		c.Obs("forced outputs not possible", 1)
		return
	}
	x := c.RandScalar() // no other case may meet the forced outputs of this one
	var path [][]byte
	for i := c.Int(4); i >= 0; i-- {
		b := c.Bytes([]int{0, 1, 2, 4, 4, 8, 33}[c.Int(7)])
		if c.Int(3) == 0 {
			for j := range b {
				b[j] = 0xff
			}
		}
		path = append(path, b)
	}
	// walk the derivation, forcing outputs
	cur, sk, chain := ref.MulG(x), x, make([]byte, 32)
	var forcedKinds []string
	for _, idx := range path {
		for try := 0; ; try++ {
			msg := append(cur.Compressed(), idx...)
			nat := ref.HMAC512(chain, msg)
			out := append([]byte{}, nat...)
			kind := c.Int(8)
			if try > 4 {
				kind = 7
			}
			var il *Int
			switch kind {
			case 0:
				il = new(big.Int).Set(ref.N)
			case 1:
				il = new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))
			case 2:
				il = new(big.Int).Add(ref.N, bi(int64(1+c.Int(1000))))
			case 3:
				il = ref.Neg(sk) // child would be infinity
			case 4:
				il = bi(0) // valid: child equals parent
			case 5:
				il = ref.Neg(bi(1)) // the largest valid offset
			}
			if il != nil {
				copy(out, il.FillBytes(make([]byte, 32)))
				forcedDigest.Store(string(nat), out)
				forcedKinds = append(forcedKinds, []string{"n", "2^256-1", "over n", "to infinity", "zero", "n-1"}[kind])
				c.Obs("forced offset "+forcedKinds[len(forcedKinds)-1], 1)
			}
			v := new(big.Int).SetBytes(out[:32])
			if v.Cmp(ref.N) >= 0 || cur.Add(ref.MulG(v)).Inf {
				idx = ref.NextIndex(idx)
				continue
			}
			cur, sk, chain = cur.Add(ref.MulG(v)), ref.Add(sk, v), out[32:]
			break
		}
	}
	r := checkDerive(c, x, path, forcedHMAC, fmt.Sprintf("derivation with forced outputs %v", forcedKinds))
	if r > 0 {
		c.Obs("derivations with skipped indices", 1)
	}
	if r > 1 {
		c.Obs("derivations with several skipped indices", 1)
	}
	c.Note("key %x path %x forced %v, %d skipped", x, path, forcedKinds, r)
}

func c24next(c *C) {
	l := c.Int(6)
	if c.Int(5) == 0 {
		l = []int{16, 32, 33, 64, 255, 256, 300}[c.Int(7)]
	}
	if c.Long() {
		l = c.LongLen()
	}
	b := c.Bytes(l)
	// trailing 0xff runs
	for j, k := 0, c.Int(l+1); j < k; j++ {
		b[l-1-j] = 0xff
	}
	want := ref.NextIndex(b)
	buf := append(append(make([]byte, 0, l+8), b...), 0xAA, 0xBB, 0xCC)
	in := kd.DerivationIndex(buf[:l])
	before := append([]byte{}, buf...)
	var got kd.DerivationIndex
	c.NoPanic("crash", "Next", func() { got = in.Next() })
	c.Check(bytes.Equal(got, want), "Next", "Next(%x) = %x, want %x", b, []byte(got), want)
	c.Check(bytes.Equal(buf, before), "Next", "Next(%x) modifies its receiver", b)
	c.Ev(b, l)
	if len(want) > l {
		c.Obs("successors that grow", 1)
	}
}

// c24public: derived keys of private and public derivation agree along splits.
func c24public(c *C) {
	x := genMaster(c)
	path := genPath(c)
	lp := libPath(path)
	pk := P(ref.MulG(x))
	t, _, err := lp.DeriveTweak(pk)
	c.Check(err == nil, "DeriveTweak", "%v", err)
	d, err := sign.DerivePublicKey(&kd.MasterEcdsaPublicKey{PublicKey: pk.Serialize()}, lp)
	c.Check(err == nil, "DerivePublicKey", "%v", err)
	// derived key = master + tweak*G = (x+tweak)*G
	c.Check(bytes.Equal(d.PublicKey, ref.MulG(ref.Add(x, sv(t))).Compressed()), "DerivePublicKey", "key %x path %x: the derived key is not the master key plus the tweak", x, path)
	// every key gives another tweak, every index too
	if len(path) > 0 {
		t2, _, err := lp.DeriveTweak(P(ref.MulG(ref.Add(x, c.RandScalar()))))
		c.Check(err == nil && t2.Equal(t) == 0, "tweak", "two keys have the same tweak on path %x", path)
		q := append([][]byte{}, path...)
		k := c.Int(len(q))
		q[k] = append(append([]byte{}, q[k]...), 0)
		if len(path[k]) > 4096 {
			q[k] = mutAD(c, path[k])
		}
		t3, _, err := libPath(q).DeriveTweak(pk)
		c.Check(err == nil && t3.Equal(t) == 0, "tweak", "paths %x and %x have the same tweak", path, q)
	}
	if c.Long() {
		for k := range path {
			for w, v := range adVariants(c, path[k]) {
				q := append([][]byte{}, path...)
				q[k] = v
				t3, _, err := libPath(q).DeriveTweak(pk)
				c.Check(err == nil && t3.Equal(t) == 0, "tweak", "a path and the one with index %d of %d bytes replaced (%s) have the same tweak", k, len(path[k]), w)
			}
		}
	}
	c.Ev(x, fmt.Sprintf("%x", path))
}

func c24malformed(c *C) {
	pk := ref.MulG(c.RandScalar()).Compressed()
	var bad [][]byte
	bad = append(bad, nil, []byte{}, pk[:32], pk[1:], append(append([]byte{}, pk...), 0), pk[:c.Int(33)])
	for _, h := range []byte{0, 1, 4, 5, 6, 7, 0x82, 0xff} {
		b := append([]byte{}, pk...)
		b[0] = h
		bad = append(bad, b)
	}
	b := append([]byte{}, pk...)
	for {
		copy(b[1:], ref.Bytes32Raw(c.Fe()))
		if _, ok := ref.Decompress(new(big.Int).SetBytes(b[1:]), 0); !ok {
			break
		}
	}
	bad = append(bad, append([]byte{}, b...))
	copy(b[1:], ref.Bytes32Raw(new(big.Int).Add(ref.P, bi(int64(c.Int(1000))))))
	bad = append(bad, b)
	path := libPath(genPath(c))
	for _, m := range bad {
		var d *kd.EcdsaPublicKey
		var err error
		c.NoPanic("crash", fmt.Sprintf("master key %x", m), func() { d, err = sign.DerivePublicKey(&kd.MasterEcdsaPublicKey{PublicKey: m}, path) })
		c.Check(err != nil && d == nil, "malformed", "master key %x accepted", m)
		c.Ev(m)
	}
	c.Obs("malformed master keys refused", len(bad))
}

// c24signing: a signature on a path verifies under the derived public key only.
func c24signing(c *C) {
	s := genSession(c, 1, 1)
	if len(s.path) == 0 {
		s.path = [][]byte{{0, 0, 0, 1}}
		s.expect()
	}
	m := &sigMap{}
	i := NI(c.Index())
	m.Set(i, s.mustShare(c, i))
	x, err := s.combine(m, 1)
	c.Check(err == nil, "Combine", "%v", err)
	d, err := sign.DerivePublicKey(&kd.MasterEcdsaPublicKey{PublicKey: ref.MulG(s.x).Compressed()}, libPath(s.path))
	c.Check(err == nil, "DerivePublicKey", "%v", err)
	pub, ok := ref.Decompress(new(big.Int).SetBytes(d.PublicKey[1:]), uint(d.PublicKey[0]&1))
	c.Check(ok && ref.ECDSAVerify(pub, s.hash, sv(x.R), sv(x.S)), "signing", "%s: the signature does not verify under DerivePublicKey's key", s)
	c.Check(!ref.ECDSAVerify(ref.MulG(s.x), s.hash, sv(x.R), sv(x.S)), "signing", "%s: the signature verifies under the master key", s)
	c.Ev(s.id())
}
