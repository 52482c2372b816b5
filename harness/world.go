package main

import (
	"fmt"
	"sort"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"

	"verif/harness/ref"
)

// committee is a set of receivers with their MEGa keys.
type committee struct {
	sks []*Int
	pks []Pt
}

func genCommittee(c *C, n int) *committee {
	m := &committee{}
	for i := 0; i < n; i++ {
		sk := c.RandScalar()
		m.sks, m.pks = append(m.sks, sk), append(m.pks, ref.MulG(sk))
	}
	return m
}
func (m *committee) n() int { return len(m.sks) }
func (m *committee) libPKs() []*mega.MEGaPublicKey {
	out := make([]*mega.MEGaPublicKey, m.n())
	for i := range out {
		out[i] = m.pk(i)
	}
	return out
}
func (m *committee) sk(i int) *mega.MEGaPrivateKey { return mega.NewMEGaPrivateKey(S(m.sks[i])) }
func (m *committee) pk(i int) *mega.MEGaPublicKey  { return mega.NewMEGaPublicKey(P(m.pks[i])) }

type opKind int

const (
	opRandom opKind = iota
	opReshareMasked
	opReshareUnmasked
	opProduct
)

var opName = []string{"random", "reshare of masked", "reshare of unmasked", "product"}

func (k opKind) pedersen() bool { return k == opRandom || k == opProduct }
func (k opKind) commitKind() poly.PolynomialCommitmentType {
	if k.pedersen() {
		return poly.Pedersen
	}
	return poly.Simple
}

// pol is a (pair of) polynomial(s) the harness knows, with its commitment.
type pol struct {
	kind poly.PolynomialCommitmentType
	a, b []*Int
}

func (p *pol) at(i NI) (v, w *Int) { return ref.Eval(p.a, X(i)), ref.Eval(p.b, X(i)) }
func (p *pol) opening(i NI) poly.CommitmentOpening {
	v, w := p.at(i)
	return mkOpening(p.kind, v, w)
}
func (p *pol) points() []Pt {
	out := []Pt{}
	for i := range p.a {
		if p.kind == poly.Simple {
			out = append(out, ref.MulG(p.a[i]))
		} else {
			out = append(out, ref.Pedersen(p.a[i], p.b[i]))
		}
	}
	return out
}

// raw gives a plain library commitment, com one as a transcript carries it.
func (p *pol) raw() poly.PolynomialCommitment { return libCM(p.kind, p.points()) }
func libCM(kind poly.PolynomialCommitmentType, pts []Pt) poly.PolynomialCommitment {
	l := make([]curve.EccPoint, len(pts))
	for i := range pts {
		l[i] = P(pts[i])
	}
	return newCM(kind, l)
}

// genPol: random polynomial of t coefficients, value (and mask) at index i given if not nil.
func genPol(c *C, kind poly.PolynomialCommitmentType, t int, i NI, v, w *Int) *pol {
	p := &pol{kind: kind, a: randPoly(c, t)}
	if kind == poly.Pedersen {
		p.b = randPoly(c, t)
	}
	if v != nil {
		p.a[0] = ref.Add(p.a[0], ref.Sub(v, ref.Eval(p.a, X(i))))
	}
	if w != nil && kind == poly.Pedersen {
		p.b[0] = ref.Add(p.b[0], ref.Sub(w, ref.Eval(p.b, X(i))))
	}
	return p
}

// wrapCM is the commitment as raw, interpolated or summed one.
func wrapCM(c *C, m poly.PolynomialCommitment) poly.PolynomialCommitment {
	return wrappers(m)[c.Int(3)]
}

// dealt is a dealing of which the harness knows the polynomials.
type dealt struct {
	kind   opKind
	dealer NI
	ad     []byte
	t      int
	com    *committee
	lib    *dealings.IDkgDealingInternal
	pol    // reconstructed by independent decryption
}

// mkShare gives the library's share for an operation: v,w masked share or left
// share v and right share (rv, rw).
func mkShare(k opKind, v, w, rv, rw *Int) dealings.SecretShares {
	switch k {
	case opRandom:
		return &dealings.RandomSecret{}
	case opReshareMasked:
		return &dealings.ReshareOfMaskedSecret{S1: S(v), S2: S(w)}
	case opReshareUnmasked:
		return &dealings.ReshareOfUnmaskedSecret{S1: S(v)}
	}
	return &dealings.UnmaskedTimesMaskedSecret{Left: S(v), Right: [2]curve.EccScalar{S(rv), S(rw)}}
}

func newDealing(share dealings.SecretShares, sd []byte, t int, com *committee, dealer NI, ad []byte) (*dealings.IDkgDealingInternal, error) {
	return dealings.NewIDkgDealingInternal(share, K, seed.FromBytes(sd), t, com.libPKs(), dealer, ad)
}

// recover opens a dealing with the harness's own decryptor and reconstructs the
// polynomials; it fails if the shares of all recipients do not lie on
// polynomials of degree < t or do not match the commitment.
func (d *dealt) recover(c *C) {
	lay := layoutOf(c, zkDLog)
	x := fromLib(d.lib.Ciphertext, lay)
	if x.pair != d.kind.pedersen() {
		c.Fail("dealing", "a %s dealing has the wrong kind of ciphertext", opName[d.kind])
	}
	if len(x.c) != d.com.n() {
		c.Fail("dealing", "ciphertext for %d of %d recipients", len(x.c), d.com.n())
	}
	var xs, va, vb []*Int
	for i := range x.c {
		s := refDecrypt(x, d.dealer, NI(i), d.ad, d.com.sks[i], d.com.pks[i])
		xs, va = append(xs, X(NI(i))), append(va, s[0])
		if x.pair {
			vb = append(vb, s[1])
		}
	}
	d.pol = pol{kind: d.kind.commitKind()}
	rec := func(ys []*Int, what string) []*Int {
		f := ref.Interpolate(xs[:d.t], ys[:d.t])
		for len(f) < d.t {
			f = append(f, bi(0))
		}
		for i := range xs {
			if ref.Eval(f, xs[i]).Cmp(ys[i]) != 0 {
				c.Fail("dealing-shares", "%s dealing, threshold %d: the %s share of recipient %d is not on the polynomial of the first %d recipients", opName[d.kind], d.t, what, i, d.t)
			}
		}
		return f
	}
	d.a = rec(va, "value")
	if x.pair {
		d.b = rec(vb, "mask")
	}
	pts := d.points()
	if d.lib.Commitment.Type() != d.pol.kind || d.lib.Commitment.Len() != d.t {
		c.Fail("dealing-commitment", "%s dealing has a commitment of kind %d with %d points, want %d", opName[d.kind], d.lib.Commitment.Type(), d.lib.Commitment.Len(), d.t)
	}
	for i, p := range d.lib.Commitment.Points() {
		if !peq(p, pts[i]) {
			c.Fail("dealing-commitment", "%s dealing: commitment point %d does not commit to the shares", opName[d.kind], i)
		}
	}
}

// op gives the library's transcript operation for predecessors l and r.
func mkOp(k opKind, l, r poly.PolynomialCommitment) dealings.IDkgTranscriptOperationInternal {
	switch k {
	case opRandom:
		return &dealings.RandomTranscript{}
	case opReshareMasked:
		return &dealings.ReshareOfMaskedTranscript{P1: l}
	case opReshareUnmasked:
		return &dealings.ReshareOfUnmaskedTranscript{P1: l}
	}
	return &dealings.UnmaskedTimesMaskedTranscript{Left: l, Right: r}
}

type dmap = btree.Map[NI, *dealings.IDkgDealingInternal]

// dealMap gives the library's map, inserted in random order.
func dealMap(c *C, ds []*dealt) *dmap {
	m := &dmap{}
	for _, i := range c.R.Perm(len(ds)) {
		m.Set(ds[i].dealer, ds[i].lib)
	}
	return m
}

// transcript is a library transcript with what the harness knows about it.
type transcript struct {
	kind opKind
	t    int
	pol
	ds  []*dealt
	com *committee
	ad  []byte
	lib *dealings.IDkgTranscriptInternal
	l   *transcript
	r   *transcript
}

// combine gives the polynomials the transcript must commit to.
func combine(k opKind, ds []*dealt, t int) pol {
	p := pol{kind: k.commitKind()}
	var w []*Int
	if k == opRandom {
		for range ds {
			w = append(w, bi(1))
		}
	} else {
		var xs []*Int
		for _, d := range ds {
			xs = append(xs, X(d.dealer))
		}
		w = ref.LagrangeAt(bi(0), xs)
	}
	for i := 0; i < t; i++ {
		p.a = append(p.a, bi(0))
		if p.kind == poly.Pedersen {
			p.b = append(p.b, bi(0))
		}
	}
	for j, d := range ds {
		p.a = padd(p.a, pscale(d.a, w[j]))
		if p.kind == poly.Pedersen {
			p.b = padd(p.b, pscale(d.b, w[j]))
		}
	}
	return p
}

// need is the number of dealings required by the operation.
func need(k opKind, l, r *transcript, t int) int {
	switch k {
	case opRandom:
		return 1
	case opProduct:
		return l.t + r.t - 1
	}
	return l.t
}

// opOf gives the operation over the predecessors' library commitments.
func opOf(k opKind, l, r *transcript) dealings.IDkgTranscriptOperationInternal {
	var a, b poly.PolynomialCommitment
	if l != nil {
		a = l.lib.CombinedCommitment
	}
	if r != nil {
		b = r.lib.CombinedCommitment
	}
	return mkOp(k, a, b)
}

// dealFor makes dealer i's dealing for the operation (dealers hold the shares of
// the predecessor transcripts).
func dealFor(c *C, k opKind, l, r *transcript, i NI, t int, com *committee, ad []byte) *dealt {
	var v, w, rv, rw *Int
	if l != nil {
		v, w = l.at(i)
	}
	if r != nil {
		rv, rw = r.at(i)
	}
	d := &dealt{kind: k, dealer: i, ad: ad, t: t, com: com}
	lib, err := newDealing(mkShare(k, v, w, rv, rw), c.Bytes(32), t, com, i, ad)
	if err != nil {
		c.Fail("NewIDkgDealing", "%s dealing (threshold %d of %d) refused: %v", opName[k], t, com.n(), err)
	}
	d.lib = lib
	d.recover(c)
	return d
}

// runOp deals with the given dealers and combines; every dealing is verified.
func runOp(c *C, k opKind, l, r *transcript, dealers []int, t int, com *committee, ad []byte) *transcript {
	tr := &transcript{kind: k, t: t, com: com, ad: ad, l: l, r: r}
	op := opOf(k, l, r)
	sort.Ints(dealers)
	for _, i := range dealers {
		d := dealFor(c, k, l, r, NI(i), t, com, ad)
		if err := d.lib.PubliclyVerify(K, op, t, NI(i), com.n(), ad); err != nil {
			c.Fail("PubliclyVerify", "honest %s dealing of dealer %d rejected: %v", opName[k], i, err)
		}
		tr.ds = append(tr.ds, d)
	}
	lib, err := dealings.NewTranscriptInternal(K, t, dealMap(c, tr.ds), op)
	if err != nil {
		c.Fail("NewTranscript", "%s transcript of %d dealings (threshold %d, dealers %v) refused: %v", opName[k], len(tr.ds), t, dealers, err)
	}
	tr.lib = lib
	tr.pol = combine(k, tr.ds, t)
	checkTranscript(c, tr)
	return tr
}

// checkTranscript compares the library transcript with the tracked polynomials.
func checkTranscript(c *C, tr *transcript) {
	cc := tr.lib.CombinedCommitment
	if cc == nil {
		c.Fail("transcript", "%s transcript without commitment", opName[tr.kind])
	}
	c.Check(cc.Type() == tr.pol.kind && cc.Len() == tr.t, "transcript", "%s transcript has kind %d and %d points, want kind %d and %d", opName[tr.kind], cc.Type(), cc.Len(), tr.pol.kind, tr.t)
	for i, p := range tr.points() {
		c.Check(peq(cc.Points()[i], p), "transcript", "%s transcript (threshold %d, %d dealings): point %d does not commit to the combined polynomial", opName[tr.kind], tr.t, len(tr.ds), i)
	}
	c.Check(peq(tr.lib.ConstantTerm(), tr.points()[0]), "transcript", "ConstantTerm wrong")
	switch tr.kind {
	case opReshareMasked, opReshareUnmasked:
		c.Check(tr.a[0].Cmp(tr.l.a[0]) == 0, "conservation", "%s: secret changed from %x to %x (dealers %s)", opName[tr.kind], tr.l.a[0], tr.a[0], dealersOf(tr.ds))
	case opProduct:
		c.Check(tr.a[0].Cmp(ref.Mul(tr.l.a[0], tr.r.a[0])) == 0, "conservation", "product: %x * %x gave %x (dealers %s)", tr.l.a[0], tr.r.a[0], tr.a[0], dealersOf(tr.ds))
	case opRandom:
		s := bi(0)
		for _, d := range tr.ds {
			s = ref.Add(s, d.a[0])
		}
		c.Check(tr.a[0].Cmp(s) == 0, "conservation", "random: secret is not the sum of the dealt secrets")
	}
}
func dealersOf(ds []*dealt) string {
	out := []int{}
	for _, d := range ds {
		out = append(out, int(d.dealer))
	}
	return fmt.Sprint(out)
}

// knownTranscript is a transcript made directly from a polynomial (as a
// predecessor with arbitrary holders).
func knownTranscript(c *C, kind poly.PolynomialCommitmentType, t int, secret *Int) *transcript {
	p := pol{kind: kind, a: randPoly(c, t)}
	if secret != nil {
		p.a[0] = secret
	}
	if kind == poly.Pedersen {
		p.b = randPoly(c, t)
	}
	tr := &transcript{t: t, pol: p}
	var cc dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: p.raw()}
	if kind == poly.Pedersen && c.Bool() {
		cc = &dealings.SummationCommitment{PolynomialCommitment: p.raw()}
	}
	tr.lib = &dealings.IDkgTranscriptInternal{CombinedCommitment: cc}
	return tr
}

// knownFor gives predecessors for an operation.
func knownFor(c *C, k opKind, max int) (l, r *transcript) {
	switch k {
	case opReshareMasked:
		l = knownTranscript(c, poly.Pedersen, 1+c.Int(max), c.Scalar())
	case opReshareUnmasked:
		l = knownTranscript(c, poly.Simple, 1+c.Int(max), c.Scalar())
	case opProduct:
		l = knownTranscript(c, poly.Simple, 1+c.Int(max), c.Scalar())
		r = knownTranscript(c, poly.Pedersen, 1+c.Int(max), c.Scalar())
	}
	return
}

// gapped returns n distinct dealer indices in increasing order.
func gapped(c *C, n int) []int {
	xs := []int{}
	for _, i := range distinctIndices(c, n) {
		xs = append(xs, int(i))
	}
	sort.Ints(xs)
	return xs
}
