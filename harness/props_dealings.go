package main

import (
	"bytes"
	"fmt"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C16", MinEval: 100,
		Rule: "one evaluation decides one honest dealing (all verifications and the independently reconstructed secret) or one refusal; distinct by kind, parameters and seed",
		Gens: []core.Gen{
			{Name: "honest", Quick: 160, Thorough: 6000, Run: c16honest},
			{Name: "large", Quick: 4, Thorough: 36, Run: c16large},
			{Name: "refuse", Quick: 80, Thorough: 2000, Run: c16refuse},
			{Name: "large-honest", Quick: 12, Thorough: 200, Run: c16honest},
			{Name: "long-honest", Quick: 16, Thorough: 400, Run: c16honest},
		}})
	core.Register(&core.Prop{ID: "C17", MinEval: 500,
		Rule: "one evaluation compares one public or private verification of an altered dealing with an independent verifier; distinct by alteration and dealing",
		Gens: []core.Gen{
			{Name: "altered", Quick: 60, Thorough: 2000, Run: c17altered},
			{Name: "mixed", Quick: 12, Thorough: 400, Run: c17mixed},
			{Name: "private", Quick: 60, Thorough: 2000, Run: c17private},
			{Name: "large-altered", Quick: 8, Thorough: 120, Run: c17altered},
			{Name: "large-private", Quick: 8, Thorough: 120, Run: c17private},
			{Name: "long-private", Quick: 8, Thorough: 300, Run: c17private},
			{Name: "long-altered", Quick: 6, Thorough: 200, Run: c17altered},
		}})
	core.Register(&core.Prop{ID: "C18", MinEval: 150,
		Rule: "one evaluation compares one combined transcript with the polynomials tracked by the harness, or decides one refusal or comparison; distinct by dealings and operation",
		Gens: []core.Gen{
			{Name: "single", Quick: 100, Thorough: 3000, Run: c18single},
			{Name: "chain", Quick: 16, Thorough: 500, Run: c18chain},
			{Name: "refuse", Quick: 60, Thorough: 2000, Run: c18refuse},
			{Name: "compare", Quick: 100, Thorough: 2000, Run: c18compare},
			{Name: "degenerate", Quick: 60, Thorough: 1500, Run: c18degenerate},
			{Name: "large-single", Quick: 16, Thorough: 200, Run: c18single},
			{Name: "large-refuse", Quick: 8, Thorough: 100, Run: c18refuse},
			{Name: "counts", Quick: 4, Thorough: 80, Run: c18counts},
		}})
	core.Register(&core.Prop{ID: "C19", MinEval: 150,
		Rule: "one evaluation compares one opening with the share tracked by the harness, or decides one refusal; distinct by transcript, receiver and provided openings",
		Gens: []core.Gen{
			{Name: "open", Quick: 60, Thorough: 2000, Run: c19open},
			{Name: "reconstruct", Quick: 100, Thorough: 4000, Run: c19reconstruct},
			{Name: "recover", Quick: 50, Thorough: 1500, Run: c19recover},
			{Name: "vanishing", Quick: 40, Thorough: 1500, Run: c19vanishing},
			{Name: "large-open", Quick: 8, Thorough: 150, Run: c19open},
			{Name: "large-reconstruct", Quick: 12, Thorough: 200, Run: c19reconstruct},
			{Name: "large-recover", Quick: 8, Thorough: 120, Run: c19recover},
			{Name: "counts", Quick: 4, Thorough: 60, Run: c19counts},
			{Name: "many", Quick: 12, Thorough: 120, Run: c19many},
			{Name: "long-open", Quick: 6, Thorough: 150, Run: c19open},
		}})
}

// ---------- C16 ----------

type dealCase struct {
	k      opKind
	n, t   int
	com    *committee
	dealer NI
	ad, sd []byte
	l, r   *transcript
	v, w   *Int
	rv, rw *Int
}

func genDealCase(c *C, k opKind, n int, zeros ...int) *dealCase {
	g := &dealCase{k: k, n: n, t: threshold(c, n), com: genCommittee(c, n), dealer: NI(c.WideIndex()), ad: c.ADMax(5000), sd: c.Bytes(32)}
	if c.Int(4) == 0 {
		g.t = n
	}
	g.v, g.w, g.rv, g.rw = c.Scalar(), c.Scalar(), c.Scalar(), c.Scalar()
	for _, z := range zeros { // every combination of zero secrets and masks
		for i, x := range []**Int{&g.v, &g.w, &g.rv, &g.rw} {
			*x = c.RandScalar()
			if z>>i&1 == 1 {
				*x = new(Int)
			}
		}
	}
	known := func(kind poly.PolynomialCommitmentType, v, w *Int) *transcript {
		p := genPol(c, kind, 1+c.Int(4), g.dealer, v, w)
		tr := &transcript{t: len(p.a), pol: *p}
		var cc dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: p.raw()}
		if kind == poly.Pedersen && c.Bool() {
			cc = &dealings.SummationCommitment{PolynomialCommitment: p.raw()}
		}
		tr.lib = &dealings.IDkgTranscriptInternal{CombinedCommitment: cc}
		return tr
	}
	switch k {
	case opReshareMasked:
		g.l = known(poly.Pedersen, g.v, g.w)
	case opReshareUnmasked:
		g.l = known(poly.Simple, g.v, nil)
	case opProduct:
		g.l, g.r = known(poly.Simple, g.v, nil), known(poly.Pedersen, g.rv, g.rw)
	}
	return g
}
func (g *dealCase) id() string {
	return fmt.Sprintf("%d/%d/%d/%d/%x/%x/%x%x%x%x", g.k, g.n, g.t, g.dealer, sha(g.ad, 40), g.sd, g.v, g.w, g.rv, g.rw)
}
func (g *dealCase) String() string {
	return fmt.Sprintf("%s dealing, threshold %d of %d, dealer %d, %d bytes of associated data", opName[g.k], g.t, g.n, g.dealer, len(g.ad))
}
func (g *dealCase) create() (*dealings.IDkgDealingInternal, error) {
	return newDealing(mkShare(g.k, g.v, g.w, g.rv, g.rw), g.sd, g.t, g.com, g.dealer, g.ad)
}

// ops are the operation with the predecessors as transcripts carry them and raw.
func (g *dealCase) ops() []dealings.IDkgTranscriptOperationInternal {
	if g.l == nil {
		return []dealings.IDkgTranscriptOperationInternal{mkOp(g.k, nil, nil)}
	}
	var rr poly.PolynomialCommitment
	if g.r != nil {
		rr = g.r.raw()
	}
	return []dealings.IDkgTranscriptOperationInternal{opOf(g.k, g.l, g.r), mkOp(g.k, g.l.raw(), rr)}
}

func c16one(c *C, g *dealCase, privAll bool) *dealt {
	lib, err := g.create()
	if err != nil {
		c.Fail("NewIDkgDealing", "%s refused: %v", g, err)
	}
	for i, op := range g.ops() {
		if err := lib.PubliclyVerify(K, op, g.t, g.dealer, g.n, g.ad); err != nil {
			c.Fail("PubliclyVerify", "honest %s rejected (predecessors form %d): %v", g, i, err)
		}
	}
	for i := 0; i < g.n; i++ {
		if !privAll && i%29 != 0 && i != g.n-1 {
			continue
		}
		if err := lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer, NI(i)); err != nil {
			c.Fail("PrivateVerify", "honest %s rejected by recipient %d: %v", g, i, err)
		}
	}
	d := &dealt{kind: g.k, dealer: g.dealer, ad: g.ad, t: g.t, com: g.com, lib: lib}
	d.recover(c)
	var want *Int
	switch g.k {
	case opReshareMasked, opReshareUnmasked:
		want = g.v
	case opProduct:
		want = ref.Mul(g.v, g.rv)
	case opRandom:
		c.Check(d.a[0].Sign() != 0, "secret", "random dealing of the secret zero")
	}
	if want != nil {
		c.Check(d.a[0].Cmp(want) == 0, "secret", "%s carries the secret %x, want %x", g, d.a[0], want)
	}
	// any threshold recipients determine the secret
	sub := c.Subset(g.n, g.t)
	var xs, ys []*Int
	for _, i := range sub {
		v, _ := d.at(NI(i))
		xs, ys = append(xs, X(NI(i))), append(ys, v)
	}
	c.Check(ref.InterpolateAt(bi(0), xs, ys).Cmp(d.a[0]) == 0, "secret", "recipients %v do not determine the secret", sub)
	c.Check((lib.Proof != nil) == (g.k == opReshareMasked || g.k == opProduct), "proof", "%s has proof=%v", g, lib.Proof != nil)
	// the non-constant coefficients are random: no zero, no repetition
	seen := map[string]bool{}
	for _, f := range [][]*Int{d.a, d.b} {
		for i, x := range f {
			if i == 0 && g.k != opRandom && &f[0] == &d.a[0] {
				continue
			}
			c.Check(x.Sign() != 0 && !seen[x.String()], "random", "%s: a sharing coefficient is zero or repeated", g)
			seen[x.String()] = true
		}
	}
	return d
}

func c16honest(c *C) {
	k := opKind(c.I % 4)
	n := 1 + c.Int(7)
	if c.Int(12) == 0 {
		n = 8 + c.Int(14)
	}
	n = sz(c, n, 65)
	var zeros []int
	if c.I < 64 {
		zeros = append(zeros, c.I/4)
	}
	g := genDealCase(c, k, n, zeros...)
	d := c16one(c, g, true)
	// deterministic in the seed, different for another seed
	again, err := g.create()
	c.Check(err == nil && insp.Canon(again) == insp.Canon(d.lib), "deterministic", "%s differs when created again", g)
	h := *g
	h.sd = c.Bytes(32)
	other, err := h.create()
	c.Check(err == nil, "NewIDkgDealing", "%v", err)
	if g.k == opRandom {
		c.Check(other.Commitment.Equal(d.lib.Commitment) == 0, "fresh", "two seeds give the same random secret")
	}
	c.Ev(g.id())
	c.Obs("honest "+opName[k]+" dealings", 1)
	if g.t == g.n {
		c.Obs("threshold equal to the number of recipients", 1)
	}
	if g.t == 1 {
		c.Obs("threshold one", 1)
	}
	if g.v.Sign() == 0 && k != opRandom {
		c.Obs("secret zero", 1)
	}
	c.Note("%s", g)
}
func c16large(c *C) {
	n := []int{258, 60, 300}[c.I/4%3]
	g := genDealCase(c, opKind(c.I%4), n)
	g.t = 1 + c.Int(20)
	c16one(c, g, false)
	c.Ev(g.id())
	c.Note("%s", g)
}

func c16refuse(c *C) {
	n := c.Int(6)
	com := genCommittee(c, n)
	k := opKind(c.Int(4))
	sh := mkShare(k, c.Scalar(), c.Scalar(), c.Scalar(), c.Scalar())
	for _, t := range []int{0, n + 1, n + 2, 2*n + 5, -1, -n - 1, 1 << 40, -1 << 40} {
		var err error
		var d *dealings.IDkgDealingInternal
		c.NoPanic("threshold-crash", fmt.Sprintf("%s dealing with threshold %d of %d", opName[k], t, n), func() { d, err = newDealing(sh, c.Bytes(32), t, com, NI(c.Index()), nil) })
		c.Check(err != nil, "threshold", "%s dealing with threshold %d of %d accepted (%v)", opName[k], t, n, d != nil)
		c.Ev("threshold", int(k), t, n)
	}
	com = genCommittee(c, n+1)
	type unknown struct{}
	for _, bad := range []dealings.SecretShares{nil, 7, "share", unknown{}, &unknown{}, S(c.Scalar()), []byte{1}} {
		var err error
		c.NoPanic("kind-crash", fmt.Sprintf("share kind %T", bad), func() { _, err = newDealing(bad, c.Bytes(32), 1, com, 0, nil) })
		c.Check(err != nil, "kind", "unsupported share kind %T accepted", bad)
		c.Ev("kind", fmt.Sprintf("%T", bad), c.I)
	}
	for _, val := range []dealings.SecretShares{dealings.RandomSecret{}, dealings.ReshareOfUnmaskedSecret{S1: S(c.Scalar())}, dealings.ReshareOfMaskedSecret{S1: S(c.Scalar()), S2: S(c.Scalar())}} {
		var err error
		var d *dealings.IDkgDealingInternal
		c.NoPanic("kind-crash", fmt.Sprintf("share kind %T", val), func() { d, err = newDealing(val, c.Bytes(32), 1, com, 0, nil) })
		c.Check(err != nil || (d != nil && d.Ciphertext != nil && d.Commitment != nil), "kind", "share kind %T gives an incomplete dealing and no error", val)
		c.Ev("value", fmt.Sprintf("%T", val), c.I)
	}
}

// ---------- C17 ----------

// refPublic is the independent public verifier.
func refPublic(c *C, d *dealings.IDkgDealingInternal, op dealings.IDkgTranscriptOperationInternal, t int, dealer NI, n int, ad []byte) bool {
	pts := pvs(d.Commitment.Points())
	if len(pts) != t {
		return false
	}
	x := fromLib(d.Ciphertext, layoutOf(c, zkDLog))
	if len(x.c) != n || !refPopOK(x, dealer, ad) {
		return false
	}
	simple := d.Commitment.Type() == poly.Simple
	ev := func(p poly.PolynomialCommitment) Pt { return ref.EvalPts(pvs(p.Points()), X(dealer)) }
	switch o := op.(type) {
	case *dealings.RandomTranscript:
		return d.Proof == nil && !simple && x.pair
	case *dealings.ReshareOfUnmaskedTranscript:
		return d.Proof == nil && simple && !x.pair && o.P1.Type() == poly.Simple && ev(o.P1).Equal(pts[0])
	case *dealings.ReshareOfMaskedTranscript:
		p, ok := d.Proof.(*dealings.MaskedResharingProof)
		return ok && simple && !x.pair && zkRefVerify(zkEqual, zkStmt{ev(o.P1), pts[0]}, zkValues(svs(insp.Scalars(p)), layoutOf(c, zkEqual)), ad)
	case *dealings.UnmaskedTimesMaskedTranscript:
		p, ok := d.Proof.(*dealings.ProductProof)
		return ok && !simple && x.pair && o.Left.Type() == poly.Simple && o.Right.Type() == poly.Pedersen &&
			zkRefVerify(zkProduct, zkStmt{ev(o.Left), ev(o.Right), pts[0]}, zkValues(svs(insp.Scalars(p)), layoutOf(c, zkProduct)), ad)
	}
	return false
}

func altDealing(d *dealings.IDkgDealingInternal) *dealings.IDkgDealingInternal {
	x := *d
	return &x
}

func c17altered(c *C) {
	k := opKind(c.I % 4)
	g := genDealCase(c, k, sz(c, 1+c.Int(4), 33))
	g.ad = c.ADMax(700)
	d := c16one(c, g, false)
	op := g.ops()[c.Int(len(g.ops()))]
	h := *g // a second dealing of the same kind, share and context with other randomness
	h.sd = c.Bytes(32)
	d2lib, err := h.create()
	c.Check(err == nil, "NewIDkgDealing", "%v", err)
	offer := func(what string, x *dealings.IDkgDealingInternal, o dealings.IDkgTranscriptOperationInternal, t int, dealer NI, n int, ad []byte) {
		var err error
		c.NoPanic("crash", fmt.Sprintf("%s with %s", g, what), func() { err = x.PubliclyVerify(K, o, t, dealer, n, ad) })
		if err == nil {
			c.Fail("accepts", "%s accepted with %s", g, what)
		}
		if refPublic(c, x, o, t, dealer, n, ad) {
			panic("the alteration " + what + " is no alteration")
		}
		c.Ev(what, g.id())
		c.Obs("rejected: "+what, 1)
	}
	ok := func(what string, x *dealings.IDkgDealingInternal) {
		err := x.PubliclyVerify(K, op, g.t, g.dealer, g.n, g.ad)
		c.Check(err == nil, "rejects", "%s rejected with %s: %v", g, what, err)
		c.Ev(what, g.id())
	}
	ok("nothing changed", d.lib)
	offer("a larger threshold", d.lib, op, g.t+1, g.dealer, g.n, g.ad)
	offer("a smaller threshold", d.lib, op, g.t-1, g.dealer, g.n, g.ad)
	offer("one receiver more", d.lib, op, g.t, g.dealer, g.n+1, g.ad)
	offer("one receiver less", d.lib, op, g.t, g.dealer, g.n-1, g.ad)
	offer("another dealer", d.lib, op, g.t, g.dealer+1, g.n, g.ad)
	offer("a dealer index that differs in one bit", d.lib, op, g.t, g.dealer^NI(1)<<uint(c.Int(63)), g.n, g.ad)
	offer("a dealer index that differs in bit 32", d.lib, op, g.t, g.dealer^1<<32, g.n, g.ad)
	offer("another dealer", d.lib, op, g.t, g.dealer^256, g.n, g.ad)
	for w, a := range adVariants(c, g.ad) {
		offer("associated data "+w, d.lib, op, g.t, g.dealer, g.n, a)
	}
	var cErr error
	c.NoPanic("crash", "another curve", func() { cErr = d.lib.PubliclyVerify(curve.EccCurveType(2), op, g.t, g.dealer, g.n, g.ad) })
	c.Check(cErr != nil, "accepts", "another curve accepted")
	// predecessors
	wrapd := func(p poly.PolynomialCommitment) poly.PolynomialCommitment { return wrapCM(c, p) }
	for _, side := range []*transcript{g.l, g.r} {
		if side == nil {
			continue
		}
		alt := func(what string, p poly.PolynomialCommitment) {
			l, r := g.l.raw(), poly.PolynomialCommitment(nil)
			if g.r != nil {
				r = g.r.raw()
			}
			if side == g.l {
				l = p
			} else {
				r = p
			}
			if r != nil {
				r = wrapd(r)
			}
			offer(what, d.lib, mkOp(k, wrapd(l), r), g.t, g.dealer, g.n, g.ad)
		}
		pts := side.points()
		for i := range pts {
			q := append([]Pt{}, pts...)
			q[i] = q[i].Add(ref.MulG(c.RandScalar()))
			alt("a predecessor with one point changed", libCM(side.pol.kind, q))
		}
		alt("a predecessor with one point more", libCM(side.pol.kind, append(append([]Pt{}, pts...), ref.G)))
		if side.pol.kind == poly.Pedersen {
			q := append([]Pt{}, pts...)
			q[0] = q[0].Add(ref.H)
			alt("a predecessor with another mask", libCM(side.pol.kind, q))
		}
		if k != opReshareMasked {
			alt("a predecessor of the other kind", libCM(poly.Simple+poly.Pedersen-side.pol.kind, pts))
		}
		alt("an unrelated predecessor", libCM(side.pol.kind, genPol(c, side.pol.kind, side.t, 0, nil, nil).points()))
	}
	if k == opProduct && g.v.Cmp(g.rv) != 0 {
		offer("predecessors swapped", d.lib, mkOp(k, g.r.raw(), g.l.raw()), g.t, g.dealer, g.n, g.ad)
	}
	// operations of another kind over any predecessors
	s, m := genPol(c, poly.Simple, 2, g.dealer, d.a[0], nil), genPol(c, poly.Pedersen, 2, g.dealer, d.a[0], nil)
	for ko := opRandom; ko <= opProduct; ko++ {
		if ko == k {
			continue
		}
		var o dealings.IDkgTranscriptOperationInternal
		switch ko {
		case opReshareMasked:
			o = mkOp(ko, wrapd(m.raw()), nil)
		case opReshareUnmasked:
			o = mkOp(ko, wrapd(s.raw()), nil)
		default:
			o = mkOp(ko, wrapd(s.raw()), wrapd(m.raw()))
		}
		offer("operation "+opName[ko], d.lib, o, g.t, g.dealer, g.n, g.ad)
		if x := altDealing(d.lib); x.Proof != nil {
			x.Proof = nil
			if !refPublic(c, x, o, g.t, g.dealer, g.n, g.ad) {
				offer("operation "+opName[ko]+" and proof removed", x, o, g.t, g.dealer, g.n, g.ad)
			}
		}
	}
	for _, o := range []dealings.IDkgTranscriptOperationInternal{nil, 3, "x"} {
		offer("an unknown operation", d.lib, o, g.t, g.dealer, g.n, g.ad)
	}
	// proofs
	x := altDealing(d.lib)
	if k == opReshareMasked || k == opProduct {
		x.Proof = nil
		offer("the proof missing", x, op, g.t, g.dealer, g.n, g.ad)
		for i := range insp.Scalars(d.lib.Proof) {
			x = altDealing(d.lib)
			x.Proof = insp.Clone(d.lib.Proof).(dealings.ZkProof)
			sc := insp.Scalars(x.Proof)[i]
			sc.Add(sc, S(c.RandScalar()))
			offer("a proof scalar changed", x, op, g.t, g.dealer, g.n, g.ad)
		}
		x = altDealing(d.lib)
		x.Proof = d.lib.Proof.Clone()
		ok("a cloned proof", x)
	}
	// proofs of the other kinds on any dealing
	for ko := opRandom; ko <= opProduct; ko++ {
		if ko == k || (ko != opReshareMasked && ko != opProduct) {
			continue
		}
		o := *g
		o.k = ko
		y, err := o.create()
		c.Check(err == nil, "NewIDkgDealing", "%v", err)
		x = altDealing(d.lib)
		x.Proof = y.Proof
		offer("a proof of another kind", x, op, g.t, g.dealer, g.n, g.ad)
	}
	// commitments
	x = altDealing(d.lib)
	pts := pvs(d.lib.Commitment.Points())
	x.Commitment = libCM(poly.Simple+poly.Pedersen-d.pol.kind, pts)
	offer("a commitment of the other kind", x, op, g.t, g.dealer, g.n, g.ad)
	x = altDealing(d.lib)
	x.Commitment = libCM(d.pol.kind, append(append([]Pt{}, pts...), ref.Infinity()))
	offer("a longer commitment", x, op, g.t, g.dealer, g.n, g.ad)
	x = altDealing(d.lib)
	x.Commitment = libCM(d.pol.kind, append(append([]Pt{}, pts...), ref.MulG(c.RandScalar())))
	offer("a longer commitment", x, op, g.t, g.dealer, g.n, g.ad)
	if g.t > 1 {
		x = altDealing(d.lib)
		x.Commitment = libCM(d.pol.kind, pts[:g.t-1])
		offer("a shorter commitment", x, op, g.t, g.dealer, g.n, g.ad)
	}
	if k != opRandom {
		for w, dd := range map[string]Pt{"plus G": ref.G, "plus a random point": ref.MulG(c.RandScalar()), "plus H": ref.H} {
			x = altDealing(d.lib)
			q := append([]Pt{}, pts...)
			q[0] = q[0].Add(dd)
			x.Commitment = libCM(d.pol.kind, q)
			offer("the committed secret "+w, x, op, g.t, g.dealer, g.n, g.ad)
		}
		// the same point up to sign or endomorphism, as a commitment and dealt honestly
		for _, u := range units {
			if q := append([]Pt{}, pts...); !q[0].Inf {
				q[0] = q[0].Mul(u.f)
				x = altDealing(d.lib)
				x.Commitment = libCM(d.pol.kind, q)
				offer("the committed secret "+u.name, x, op, g.t, g.dealer, g.n, g.ad)
				for i := range q[1:] {
					q[i+1] = q[i+1].Mul(u.f)
				}
				x = altDealing(x)
				x.Commitment = libCM(d.pol.kind, q)
				offer("the whole commitment "+u.name, x, op, g.t, g.dealer, g.n, g.ad)
			}
			for part, z := range []*Int{g.v, g.w, g.rv, g.rw} {
				o := *g
				*[]**Int{&o.v, &o.w, &o.rv, &o.rw}[part] = ref.Mul(z, u.f)
				if z.Sign() == 0 || (part == 1 && k != opReshareMasked) || (part > 1 && k != opProduct) || (k == opProduct && part == 0 && g.rv.Sign() == 0 && g.rw.Sign() == 0) {
					continue
				}
				y, err := o.create()
				c.Check(err == nil, "NewIDkgDealing", "%v", err)
				offer([]string{"the secret ", "the mask ", "the right secret ", "the right mask "}[part]+u.name, y, op, g.t, g.dealer, g.n, g.ad)
			}
			if k == opReshareMasked {
				o := *g
				o.v, o.w = ref.Mul(g.v, u.f), ref.Mul(g.w, u.f)
				if o.v.Sign() == 0 && o.w.Sign() == 0 {
					continue
				}
				y, err := o.create()
				c.Check(err == nil, "NewIDkgDealing", "%v", err)
				offer("secret and mask "+u.name, y, op, g.t, g.dealer, g.n, g.ad)
			}
		}
		// an honest dealing of another secret
		o := *g
		o.v = ref.Add(g.v, bi(1))
		if k == opProduct && g.rv.Sign() == 0 {
			o.rv = ref.Add(g.rv, bi(1))
		}
		y, err := o.create()
		c.Check(err == nil, "NewIDkgDealing", "%v", err)
		offer("another secret dealt", y, op, g.t, g.dealer, g.n, g.ad)
		if k != opReshareUnmasked {
			x = altDealing(y)
			x.Proof = d.lib.Proof
			offer("another secret dealt with the right proof", x, op, g.t, g.dealer, g.n, g.ad)
			x = altDealing(d.lib)
			x.Proof = y.Proof
			offer("the proof of another secret", x, op, g.t, g.dealer, g.n, g.ad)
		}
		if k == opReshareMasked { // right secret, wrong mask
			o = *g
			o.w = ref.Add(g.w, bi(1))
			y, err = o.create()
			c.Check(err == nil, "NewIDkgDealing", "%v", err)
			offer("a proof for another mask", y, op, g.t, g.dealer, g.n, g.ad)
		}
	}
	// ciphertexts
	x = altDealing(d.lib)
	v := fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog))
	v.pair = !v.pair
	for i := range v.c {
		v.c[i] = append(v.c[i], v.c[i][0])
	}
	x.Ciphertext = toLib(v, layoutOf(c, zkDLog))
	offer("the ciphertext relabelled", x, op, g.t, g.dealer, g.n, g.ad)
	o := genDealCase(c, map[bool]opKind{true: opReshareUnmasked, false: opRandom}[k.pedersen()], g.n)
	o.dealer, o.ad, o.com = g.dealer, g.ad, g.com
	y, err := o.create()
	c.Check(err == nil, "NewIDkgDealing", "%v", err)
	x = altDealing(d.lib)
	x.Ciphertext = y.Ciphertext
	offer("an honest ciphertext of the other kind", x, op, g.t, g.dealer, g.n, g.ad)
	for w, f := range map[string]func(o *dealCase){
		"the ciphertext of another dealer":          func(o *dealCase) { o.dealer++ },
		"the ciphertext for other associated data":  func(o *dealCase) { o.ad = mutAD(c, o.ad) },
		"the ciphertext for another receiver count": func(o *dealCase) { o.n++; o.com = genCommittee(c, o.n) },
	} {
		o := *g
		o.sd = c.Bytes(32)
		f(&o)
		y, err := o.create()
		c.Check(err == nil, "NewIDkgDealing", "%v", err)
		x = altDealing(d.lib)
		x.Ciphertext = y.Ciphertext
		offer(w, x, op, g.t, g.dealer, g.n, g.ad)
	}
	v = fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog))
	if g.n > 1 {
		v.c = v.c[:g.n-1]
	} else {
		v.c = append(v.c, v.c[0])
	}
	x = altDealing(d.lib)
	x.Ciphertext = toLib(v, layoutOf(c, zkDLog))
	offer("a recipient missing or extra", x, op, g.t, g.dealer, g.n, g.ad)
	v = fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog))
	v.pop.resp = []*Int{ref.Add(v.pop.resp[0], bi(1))}
	x = altDealing(d.lib)
	x.Ciphertext = toLib(v, layoutOf(c, zkDLog))
	offer("a broken proof of possession", x, op, g.t, g.dealer, g.n, g.ad)
	// publicly consistent mixtures must not be rejected for a private reason
	x = altDealing(d.lib)
	x.Ciphertext = d2lib.Ciphertext
	ok("the ciphertext of a second dealing of the same secret", x)
	c.Note("%s", g)
}

// c17mixed combines arbitrary parts of a pool of dealings with arbitrary
// contexts and compares with the independent verifier.
func c17mixed(c *C) {
	com := genCommittee(c, 3)
	ads := [][]byte{nil, c.Bytes(20)}
	dealers := []NI{0, 1, NI(c.WideIndex())}
	type ctx struct {
		op     dealings.IDkgTranscriptOperationInternal
		dealer NI
		ad     []byte
		t, n   int
	}
	l, m := knownTranscript(c, poly.Simple, 2, nil), knownTranscript(c, poly.Pedersen, 2, nil)
	ops := []dealings.IDkgTranscriptOperationInternal{mkOp(opRandom, nil, nil), mkOp(opReshareMasked, m.lib.CombinedCommitment, nil), mkOp(opReshareUnmasked, l.lib.CombinedCommitment, nil),
		mkOp(opProduct, l.lib.CombinedCommitment, m.lib.CombinedCommitment), mkOp(opReshareUnmasked, m.raw(), nil), mkOp(opReshareUnmasked, l.raw(), nil), mkOp(opProduct, m.raw(), m.raw()), mkOp(opProduct, l.raw(), l.raw())}
	var pool []*dealings.IDkgDealingInternal
	for k := opRandom; k <= opProduct; k++ {
		for _, dl := range dealers[:2] {
			v, w := l.at(dl)
			rv, rw := m.at(dl)
			if k == opReshareMasked {
				v, w = rv, rw
			}
			d, err := newDealing(mkShare(k, v, w, rv, rw), c.Bytes(32), 1+c.Int(3), com, dl, ads[c.Int(2)])
			c.Check(err == nil, "NewIDkgDealing", "%v", err)
			pool = append(pool, d)
		}
	}
	acc := 0
	for i := 0; i < 150; i++ {
		base := pool[c.Int(len(pool))]
		x := altDealing(base)
		for j := c.Int(3); j > 0; j-- {
			o := pool[c.Int(len(pool))]
			switch c.Int(4) {
			case 0:
				x.Ciphertext = o.Ciphertext
			case 1:
				x.Commitment = o.Commitment
			case 2:
				x.Proof = o.Proof
			case 3:
				x.Proof = nil
			}
		}
		op, t, dl, n, ad := ops[c.Int(len(ops))], x.Commitment.Len(), dealers[c.Int(3)], 3, ads[c.Int(2)]
		if c.Int(8) == 0 {
			t = 1 + c.Int(3)
		}
		if c.Int(8) == 0 {
			n = 2 + c.Int(3)
		}
		var err error
		c.NoPanic("crash", "mixed dealing", func() { err = x.PubliclyVerify(K, op, t, dl, n, ad) })
		want := refPublic(c, x, op, t, dl, n, ad)
		if (err == nil) != want {
			c.Fail("mixed", "a dealing mixed from parts (commitment kind %d, ciphertext kind %d, proof %T) under %T: library says %v, independent verifier accept=%v", x.Commitment.Type(), x.Ciphertext.CType(), x.Proof, op, err, want)
		}
		if want {
			acc++
		}
		// opening, private verification and complaints never crash on it
		r := c.Int(3)
		c.NoPanic("crash", "private verification of a mixed dealing", func() {
			x.PrivateVerify(K, com.sk(r), com.pk(r), ad, dl, NI(r))
			dealings.CommitmentOpening.OpenDealing(x, ad, dl, NI(r), com.sk(r), com.pk(r))
			mp := &dmap{}
			mp.Set(dl, x)
			complain(mp, ad, NI(r), com.sk(r), com.pk(r), c.Bytes(32))
		})
		c.Ev("mixed", c.I, i)
	}
	c.Obs("mixed dealings accepted by both", acc)
	c.Obs("mixed dealings rejected by both", 150-acc)
}

func c17private(c *C) {
	k := opKind(c.I % 4)
	n := sz(c, 2+c.Int(4), 33)
	g := genDealCase(c, k, n)
	g.ad = c.ADMax(500)
	lib, err := g.create()
	c.Check(err == nil, "NewIDkgDealing", "%v", err)
	lay := layoutOf(c, zkDLog)
	v := fromLib(lib.Ciphertext, lay)
	bad := map[int]bool{}
	for _, i := range c.Subset(n, c.Int(n+1)) {
		bad[i] = true
		j := 0
		if v.pair {
			j = c.Int(2)
		}
		v.c[i][j] = ref.Add(v.c[i][j], []*Int{bi(1), ref.Neg(bi(1)), c.RandScalar()}[c.Int(3)])
	}
	x := &dealings.IDkgDealingInternal{Ciphertext: toLib(v, lay), Commitment: lib.Commitment, Proof: lib.Proof}
	err = x.PubliclyVerify(K, g.ops()[0], g.t, g.dealer, g.n, g.ad)
	c.Check(err == nil, "PubliclyVerify", "publicly consistent dealing rejected: %v", err)
	for i := 0; i < n; i++ {
		err := x.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer, NI(i))
		c.Check((err != nil) == bad[i], "PrivateVerify", "%s with corrupted shares %v: recipient %d says %v", g, bad, i, err)
		o, err := dealings.CommitmentOpening.OpenDealing(x, g.ad, g.dealer, NI(i), g.com.sk(i), g.com.pk(i))
		c.Check((err != nil) == bad[i] && (o == nil) == bad[i], "OpenDealing", "%s with corrupted shares %v: recipient %d says %v", g, bad, i, err)
		c.Ev("private", g.id(), i, bad[i])
		if bad[i] {
			c.Obs("bad shares rejected by their recipient", 1)
		} else {
			c.Obs("good shares accepted beside bad ones", 1)
		}
	}
	// commitment changed: everyone whose share no longer opens it rejects
	pts := pvs(lib.Commitment.Points())
	j := c.Int(len(pts))
	pts[j] = pts[j].Add(ref.MulG(c.RandScalar()))
	y := &dealings.IDkgDealingInternal{Ciphertext: lib.Ciphertext, Commitment: libCM(lib.Commitment.Type(), pts), Proof: lib.Proof}
	for i := 0; i < n; i++ {
		err := y.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer, NI(i))
		c.Check(err != nil, "PrivateVerify", "recipient %d accepts a commitment with point %d changed", i, j)
	}
	// context changed
	i := c.Int(n)
	for what, f := range map[string]func() error{
		"another recipient's key": func() error { return lib.PrivateVerify(K, g.com.sk((i+1)%n), g.com.pk((i+1)%n), g.ad, g.dealer, NI(i)) },
		"another secret key":      func() error { return lib.PrivateVerify(K, g.com.sk((i+1)%n), g.com.pk(i), g.ad, g.dealer, NI(i)) },
		"another public key":      func() error { return lib.PrivateVerify(K, g.com.sk(i), g.com.pk((i+1)%n), g.ad, g.dealer, NI(i)) },
		"other associated data":   func() error { return lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), mutAD(c, g.ad), g.dealer, NI(i)) },
		"another dealer":          func() error { return lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer+1, NI(i)) },
		"one bit of the dealer": func() error {
			return lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer^NI(1)<<uint(c.Int(63)), NI(i))
		},
		"another recipient index":    func() error { return lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer, NI((i+1)%n)) },
		"a recipient out of range":   func() error { return lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer, NI(n)) },
		"a negative recipient index": func() error { return lib.PrivateVerify(K, g.com.sk(i), g.com.pk(i), g.ad, g.dealer, -1) },
		"another curve": func() error {
			return lib.PrivateVerify(curve.EccCurveType(2), g.com.sk(i), g.com.pk(i), g.ad, g.dealer, NI(i))
		},
	} {
		var err error
		c.NoPanic("crash", what, func() { err = f() })
		c.Check(err != nil, "PrivateVerify", "%s accepted by recipient %d with %s", g, i, what)
		c.Ev(what, g.id())
		c.Obs("private rejection: "+what, 1)
	}
	c.Note("%s corrupted %v", g, bad)
}

// ---------- C18 ----------

// manyOf gives the number of receivers and the least number of dealings: in a
// large generator one of the two is large.
func manyOf(c *C, n int) (receivers, dealings int) {
	if !isLarge(c) {
		return n, 0
	}
	if c.I/4%2 == 0 {
		return sz(c, n, 33), 0
	}
	return n, sz(c, n, 33)
}

// threshold for n receivers: the extremes have a good chance also if n is large.
func threshold(c *C, n int) int {
	if n > 6 || isLarge(c) {
		switch c.Int(6) {
		case 0, 1:
			return n
		case 2:
			return 1
		case 3:
			return 1 + c.Int(min(n, 4))
		}
	}
	return 1 + c.Int(n)
}

func c18single(c *C) {
	k := opKind(c.I % 4)
	n, nd := manyOf(c, 1+c.Int(5))
	l, r := knownFor(c, k, max(3, nd/2))
	com := genCommittee(c, n)
	t := threshold(c, n)
	nd = max(nd, need(k, l, r, t)+c.Int(3))
	dealers := gapped(c, nd)
	tr := runOp(c, k, l, r, dealers, t, com, c.ADMax(300))
	i := NI(c.Index())
	c.Check(peq(tr.lib.EvaluateAt(i), ref.EvalPts(tr.points(), X(i))), "EvaluateAt", "EvaluateAt(%d) wrong", i)
	// another sufficient subset of the dealings carries the same secret
	if k != opRandom && nd > need(k, l, r, t) {
		sub := c.Subset(nd, need(k, l, r, t))
		var ds []*dealt
		for _, j := range sub {
			ds = append(ds, tr.ds[j])
		}
		lib, err := dealings.NewTranscriptInternal(K, t, dealMap(c, ds), opOf(k, l, r))
		c.Check(err == nil, "NewTranscript", "%d of %d dealings refused: %v", len(ds), nd, err)
		t2 := &transcript{kind: k, t: t, com: com, ds: ds, lib: lib, l: l, r: r, pol: combine(k, ds, t)}
		checkTranscript(c, t2)
		c.Check(k != opReshareMasked && k != opReshareUnmasked || lib.ConstantTerm().Equal(tr.lib.ConstantTerm()) == 1, "conservation", "two dealer subsets give different keys")
		c.Ev("subset", int(k), fmt.Sprint(dealers, sub), t2.a[0])
		c.Obs("second dealer subsets", 1)
	}
	c.Ev(int(k), fmt.Sprint(dealers), t, tr.a[0])
	c.Obs(opName[k]+" transcripts", 1)
	c.Note("%s: dealers %v threshold %d of %d", opName[k], dealers, t, n)
}

// c18degenerate: the dealings' coefficients are zero, or cancel out in the
// combination, at chosen places (leading, constant, all). The commitment has as
// many points as the threshold all the same.
func c18degenerate(c *C) {
	k := opKind(c.I % 4)
	com := genCommittee(c, 1)
	t := 1 + c.Int(4)
	zero := make([]bool, t) // coefficients which vanish
	switch c.I / 4 % 6 {
	case 0:
		zero[t-1] = true
	case 1:
		for i := 1; i < t; i++ {
			zero[i] = true
		}
	case 2:
		zero[0] = true
	case 3:
		for i := range zero {
			zero[i] = true
		}
	case 4:
		for i := c.Int(t); i < t; i++ {
			zero[i] = true
		}
	default:
		for i := range zero {
			zero[i] = c.Bool()
		}
	}
	kind := k.commitKind()
	draw := func() (p pol) {
		p = pol{kind: kind, a: randPoly(c, t)}
		if kind == poly.Pedersen {
			p.b = randPoly(c, t)
		}
		return
	}
	vanish := func(p *pol) {
		for i := range zero {
			if zero[i] {
				p.a[i] = bi(0)
				if p.b != nil {
					p.b[i] = bi(0)
				}
			}
		}
	}
	want := draw()
	vanish(&want)
	l, r := knownFor(c, k, 3)
	switch k { // the predecessor's value is the one asked for
	case opReshareMasked, opReshareUnmasked:
		l = knownTranscript(c, l.pol.kind, l.t, want.a[0])
	case opProduct:
		if want.a[0].Sign() == 0 {
			l = knownTranscript(c, poly.Simple, l.t, bi(0))
		} else {
			l = knownTranscript(c, poly.Simple, l.t, c.RandScalar())
			r = knownTranscript(c, poly.Pedersen, r.t, ref.Mul(want.a[0], ref.Inv(l.a[0])))
		}
	}
	nd := need(k, l, r, t) + c.Int(3)
	dealers := gapped(c, nd)
	each := c.Bool() // every dealing has the zeros, or only the combination
	var ds []*dealt
	for _, i := range dealers {
		d := &dealt{kind: k, dealer: NI(i), t: t, com: com, pol: draw()}
		if each {
			vanish(&d.pol)
		}
		ds = append(ds, d)
	}
	// the dealings' constants are a sharing of the wanted value
	if k != opRandom {
		m := need(k, l, r, t)
		f := genPol(c, kind, m, 0, nil, nil)
		f.a[0] = want.a[0]
		if f.b != nil {
			f.b[0] = want.b[0]
		}
		if k == opReshareUnmasked {
			f.a = l.a
		}
		if zero[0] && each && k != opReshareUnmasked {
			for j := range f.a {
				f.a[j] = bi(0)
				if f.b != nil {
					f.b[j] = bi(0)
				}
			}
		}
		for _, d := range ds {
			v, w := f.at(d.dealer)
			d.a[0] = v
			if d.b != nil {
				d.b[0] = w
			}
		}
	}
	// the last dealing makes the combination what is wanted
	got := combine(k, ds, t)
	last := ds[nd-1]
	lw := bi(1)
	if k != opRandom {
		var xs []*Int
		for _, d := range ds {
			xs = append(xs, X(d.dealer))
		}
		lw = ref.LagrangeAt(bi(0), xs)[nd-1]
	}
	fix := func(x, want, got *Int) *Int {
		return ref.Add(x, ref.Mul(ref.Sub(want, got), ref.Inv(lw)))
	}
	for i := 0; i < t; i++ {
		if i == 0 && k != opRandom {
			continue
		}
		last.a[i] = fix(last.a[i], want.a[i], got.a[i])
		if last.b != nil {
			last.b[i] = fix(last.b[i], want.b[i], got.b[i])
		}
	}
	base, err := newDealing(mkShare(k, c.Scalar(), c.Scalar(), c.Scalar(), c.Scalar()), c.Bytes(32), 1, com, 0, nil)
	c.Check(err == nil, "NewIDkgDealing", "%v", err)
	for _, d := range ds {
		d.lib = altDealing(base)
		d.lib.Commitment = libCM(kind, d.points())
	}
	lib, err := dealings.NewTranscriptInternal(K, t, dealMap(c, ds), opOf(k, l, r))
	c.Check(err == nil, "NewTranscript", "%s transcript (threshold %d, dealers %v, vanishing coefficients %v) refused: %v", opName[k], t, dealers, zero, err)
	tr := &transcript{kind: k, t: t, com: com, ds: ds, lib: lib, l: l, r: r, pol: combine(k, ds, t)}
	for i := range want.a {
		if tr.a[i].Cmp(want.a[i]) != 0 {
			panic("c18degenerate: the combination is not the wanted one")
		}
	}
	checkTranscript(c, tr)
	for j := 0; j < 2; j++ {
		i := NI(c.Index())
		c.Check(peq(lib.EvaluateAt(i), ref.EvalPts(tr.points(), X(i))), "EvaluateAt", "%s transcript with vanishing coefficients %v: EvaluateAt(%d) wrong", opName[k], zero, i)
	}
	c.Check(lib.Compare(*lib) == 0, "Compare", "a transcript differs from itself")
	// it serves as the predecessor of the next operation
	nk, x, y := opReshareUnmasked, tr, (*transcript)(nil)
	if kind == poly.Pedersen {
		nk = opReshareMasked
		if c.Bool() {
			nk, x, y = opProduct, knownTranscript(c, poly.Simple, 1+c.Int(2), c.Scalar()), tr
		}
	}
	nx := runOp(c, nk, x, y, gapped(c, need(nk, x, y, 1)+c.Int(2)), 1, com, nil)
	c.Ev(int(k), fmt.Sprint(dealers, zero, each), t, nx.a[0], c.I)
	c.Obs(opName[k]+" transcripts with vanishing coefficients", 1)
	c.Note("%s: dealers %v threshold %d vanishing %v", opName[k], dealers, t, zero)
}

func subsetOf(c *C, n, min int) []int {
	if min > n {
		min = n
	}
	return c.Subset(n, min+c.Int(n-min+1))
}

// c18chain runs a history of operations over changing committees.
func c18chain(c *C) {
	ad := c.ADMax(100)
	n := 3 + c.Int(3)
	com := genCommittee(c, n)
	t := 1 + c.Int((n+1)/2)
	masked := runOp(c, opRandom, nil, nil, subsetOf(c, n, 1), t, com, ad)
	cur := runOp(c, opReshareMasked, masked, nil, subsetOf(c, n, masked.t), t, com, ad)
	secret := cur.a[0]
	steps := []string{fmt.Sprintf("random+masked reshare t=%d n=%d", t, n)}
	for s := 0; s < 3; s++ {
		switch c.Int(3) {
		case 0: // unmasked reshare to a new committee of any size
			n2 := 1 + c.Int(6)
			com2 := genCommittee(c, n2)
			t2 := 1 + c.Int(n2)
			nx := runOp(c, opReshareUnmasked, cur, nil, subsetOf(c, n, cur.t), t2, com2, ad)
			c.Check(nx.a[0].Cmp(secret) == 0, "conservation", "the key changed after %v", steps)
			cur, n, com = nx, n2, com2
			steps = append(steps, fmt.Sprintf("reshare t=%d n=%d", t2, n2))
		case 1: // multiply with a fresh masked value of the same holders
			tl := 1
			if n >= 2*cur.t {
				tl = 1 + c.Int(n-2*cur.t+1)
			}
			if cur.t+tl-1 > n {
				continue
			}
			lam := runOp(c, opRandom, nil, nil, subsetOf(c, n, 1), tl, com, ad)
			prod := runOp(c, opProduct, cur, lam, subsetOf(c, n, cur.t+tl-1), 1+c.Int(n), com, ad)
			steps = append(steps, fmt.Sprintf("product t=%d", prod.t))
			// and back to an unmasked value
			if n >= prod.t {
				un := runOp(c, opReshareMasked, prod, nil, subsetOf(c, n, prod.t), 1+c.Int(n), com, ad)
				c.Check(un.a[0].Cmp(ref.Mul(secret, lam.a[0])) == 0, "conservation", "product lost after %v", steps)
			}
		case 2: // reshare twice with different dealers: same public key
			a := runOp(c, opReshareUnmasked, cur, nil, subsetOf(c, n, cur.t), 1+c.Int(n), com, ad)
			b := runOp(c, opReshareUnmasked, cur, nil, subsetOf(c, n, cur.t), 1+c.Int(n), com, ad)
			c.Check(a.lib.ConstantTerm().Equal(b.lib.ConstantTerm()) == 1, "conservation", "public key differs after %v", steps)
			steps = append(steps, "two reshares")
		}
		c.Ev("step", c.I, s, cur.a[0])
	}
	c.Obs("chain steps", len(steps))
	c.Note("%v", steps)
}

func c18refuse(c *C) {
	k := opKind(c.I % 4)
	n, nd := manyOf(c, 2+c.Int(4))
	l, r := knownFor(c, k, max(3, nd/2))
	com := genCommittee(c, n)
	t := 1 + c.Int(n-1)
	nd = need(k, l, r, t) + c.Int(2)
	tr := runOp(c, k, l, r, gapped(c, nd), t, com, nil)
	op := opOf(k, l, r)
	refuse := func(what string, ds []*dealt, t int, o dealings.IDkgTranscriptOperationInternal) {
		var err error
		var x *dealings.IDkgTranscriptInternal
		c.NoPanic("crash", what, func() { x, err = dealings.NewTranscriptInternal(K, t, dealMap(c, ds), o) })
		if err == nil {
			c.Fail("accepts", "%s transcript accepted with %s (%d dealings, threshold %d, commitment %v)", opName[k], what, len(ds), t, x != nil && x.CombinedCommitment != nil)
		}
		c.Ev(what, int(k), c.I, tr.a[0])
		c.Obs("refused: "+what, 1)
	}
	if k != opRandom {
		refuse("too few dealings", tr.ds[:need(k, l, r, t)-1], t, op)
		if nd > 1 {
			refuse("no dealings", nil, t, op)
		}
	}
	refuse("a larger threshold", tr.ds, t+1, op)
	refuse("a smaller threshold", tr.ds, t-1, op)
	i := c.Int(nd)
	with := func(d *dealings.IDkgDealingInternal) []*dealt {
		ds := append([]*dealt{}, tr.ds...)
		y := *ds[i]
		y.lib = d
		ds[i] = &y
		return ds
	}
	x := altDealing(tr.ds[i].lib)
	x.Commitment = libCM(poly.Simple+poly.Pedersen-tr.pol.kind, pvs(x.Commitment.Points()))
	refuse("a commitment of the other kind", with(x), t, op)
	var all []*dealt
	for _, d := range tr.ds {
		y := *d
		y.lib = altDealing(d.lib)
		y.lib.Commitment = libCM(poly.Simple+poly.Pedersen-tr.pol.kind, pvs(y.lib.Commitment.Points()))
		all = append(all, &y)
	}
	refuse("all commitments of the other kind", all, t, op)
	x = altDealing(tr.ds[i].lib)
	x.Commitment = libCM(tr.pol.kind, append(pvs(x.Commitment.Points()), ref.G))
	refuse("a longer commitment", with(x), t, op)
	if t > 1 {
		x = altDealing(tr.ds[i].lib)
		x.Commitment = libCM(tr.pol.kind, pvs(x.Commitment.Points())[:t-1])
		refuse("a shorter commitment", with(x), t, op)
	}
	if k == opReshareUnmasked {
		x = altDealing(tr.ds[i].lib)
		p := pvs(x.Commitment.Points())
		p[0] = p[0].Add(ref.MulG(c.RandScalar()))
		x.Commitment = libCM(tr.pol.kind, p)
		refuse("another constant term", with(x), t, op)
		if !l.points()[0].Inf {
			for _, u := range units {
				var all []*dealt
				for _, d := range tr.ds {
					y := *d
					y.lib = altDealing(d.lib)
					p := pvs(y.lib.Commitment.Points())
					p[0] = p[0].Mul(u.f)
					y.lib.Commitment = libCM(tr.pol.kind, p)
					all = append(all, &y)
				}
				refuse("all constants "+u.name, all, t, op)
				q := l.points()
				q[0] = q[0].Mul(u.f)
				refuse("a predecessor with its key "+u.name, tr.ds, t, mkOp(k, wrapCM(c, libCM(poly.Simple, q)), nil))
			}
		}
		q := l.points()
		q[0] = q[0].Add(ref.G)
		refuse("a predecessor of another key", tr.ds, t, mkOp(k, wrapCM(c, libCM(poly.Simple, q)), nil))
	}
	if k != opRandom {
		wr := func(p *transcript) poly.PolynomialCommitment {
			return wrapCM(c, libCM(poly.Simple+poly.Pedersen-p.pol.kind, p.points()))
		}
		if k == opProduct {
			refuse("a left predecessor of the wrong kind", tr.ds, t, mkOp(k, wr(l), r.lib.CombinedCommitment))
			refuse("a right predecessor of the wrong kind", tr.ds, t, mkOp(k, l.lib.CombinedCommitment, wr(r)))
			refuse("predecessors swapped", tr.ds, t, mkOp(k, r.lib.CombinedCommitment, l.lib.CombinedCommitment))
			// one point more on either side needs one dealing more
			more := nd - need(k, l, r, t) + 1
			q := l.points()
			for j := 0; j < more; j++ {
				q = append(q, ref.MulG(c.RandScalar()))
			}
			refuse("dealings insufficient for the left predecessor", tr.ds, t, mkOp(k, wrapCM(c, libCM(poly.Simple, q)), r.raw()))
		} else {
			refuse("a predecessor of the wrong kind", tr.ds, t, mkOp(k, wr(l), nil))
		}
	}
	for _, o := range []dealings.IDkgTranscriptOperationInternal{nil, 5, "random", struct{}{}} {
		refuse("an unsupported operation", tr.ds, t, o)
	}
	for _, o := range []dealings.IDkgTranscriptOperationInternal{dealings.RandomTranscript{}} {
		var err error
		var x *dealings.IDkgTranscriptInternal
		c.NoPanic("crash", "operation by value", func() { x, err = dealings.NewTranscriptInternal(K, t, dealMap(c, tr.ds), o) })
		c.Check(err != nil || (x != nil && x.CombinedCommitment != nil), "accepts", "operation by value gives a transcript without commitment and no error")
	}
	c.Note("%s: %d dealings threshold %d", opName[k], nd, t)
}

func c18compare(c *C) {
	kind := kindOf(c)
	n := 1 + c.Int(4)
	pts := make([]Pt, n)
	for i := range pts {
		pts[i] = c.Point()
	}
	mk := func(k poly.PolynomialCommitmentType, p []Pt) *dealings.IDkgTranscriptInternal {
		l := make([]curve.EccPoint, len(p))
		for i := range p {
			l[i] = PR(c, p[i])
		}
		var cc dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: newCM(k, l)}
		if c.Bool() {
			cc = &dealings.SummationCommitment{PolynomialCommitment: newCM(k, l)}
		}
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: cc}
	}
	a := mk(kind, pts)
	test := func(what string, b *dealings.IDkgTranscriptInternal, equal bool) {
		x, y := a.Compare(*b), b.Compare(*a)
		c.Check((x == 0) == equal && (y == 0) == equal, "Compare", "%s: Compare gives %d and %d", what, x, y)
		c.Check(x == -y, "Compare", "%s: Compare is not antisymmetric (%d, %d)", what, x, y)
		c.Ev(what, insp.Canon(a), insp.Canon(b))
		c.Obs("compared: "+what, 1)
	}
	test("equal", mk(kind, pts), true)
	c.Check(a.Compare(*a) == 0, "Compare", "a transcript differs from itself")
	q := append([]Pt{}, pts...)
	i := c.Int(n)
	q[i] = q[i].Add(ref.MulG(c.RandScalar()))
	test("one point changed", mk(kind, q), false)
	test("one point more", mk(kind, append(append([]Pt{}, pts...), c.Point())), false)
	test("other kind", mk(poly.Simple+poly.Pedersen-kind, pts), false)
	if n > 1 {
		test("one point less", mk(kind, pts[:n-1]), false)
	}
	// a total order
	x, y := mk(kind, q), mk(kind, pts[:1+c.Int(n)])
	if a.Compare(*x) <= 0 && x.Compare(*y) <= 0 {
		c.Check(a.Compare(*y) <= 0, "Compare", "not transitive")
	}
}

// ---------- C19 ----------

type omap = btree.Map[NI, poly.CommitmentOpening]

// corrupt alters the recipient's encrypted share in a copy of the dealing.
func corruptShare(c *C, d *dealings.IDkgDealingInternal, recs []int) *dealings.IDkgDealingInternal {
	lay := layoutOf(c, zkDLog)
	v := fromLib(d.Ciphertext, lay)
	for _, i := range recs {
		j := 0
		if v.pair {
			j = c.Int(2)
		}
		v.c[i][j] = ref.Add(v.c[i][j], c.RandScalar())
	}
	x := altDealing(d)
	x.Ciphertext = toLib(v, lay)
	return x
}

func checkOpening(c *C, class, what string, o poly.CommitmentOpening, want *pol, i NI) {
	v, w := want.at(i)
	gv, gw, ok := openingValues(o)
	c.Check(ok && openingKind(o) == want.kind && gv.Cmp(v) == 0 && (want.kind == poly.Simple || gw.Cmp(w) == 0), class, "%s: receiver %d has the opening %s, want value %x", what, i, insp.Canon(o), v)
}

func c19open(c *C) {
	k := opKind(c.I % 4)
	n, nd := manyOf(c, 1+c.Int(5))
	l, r := knownFor(c, k, max(2, nd/2))
	com := genCommittee(c, n)
	t := threshold(c, n)
	ad := c.ADMax(300)
	nd = max(nd, need(k, l, r, t)+c.Int(2))
	tr := runOp(c, k, l, r, gapped(c, nd), t, com, ad)
	dm := dealMap(c, tr.ds)
	var xs, ys []*Int
	for i := 0; i < n; i++ {
		o, err := dealings.CommitmentOpening.FromDealings(dm, tr.lib.CombinedCommitment, ad, NI(i), com.sk(i), com.pk(i))
		if err != nil {
			c.Fail("FromDealings", "%s: receiver %d of %d cannot open: %v", opName[k], i, n, err)
		}
		checkOpening(c, "FromDealings", opName[k], o, &tr.pol, NI(i))
		c.Check(tr.lib.CombinedCommitment.CheckOpening(NI(i), o), "FromDealings", "the transcript rejects the opening of receiver %d", i)
		o2, err := dealings.CommitmentOpening.FromDealingsAndOpenings(dm, &btree.Map[NI, *omap]{}, tr.lib.CombinedCommitment, ad, NI(i), com.sk(i), com.pk(i))
		c.Check(err == nil && sameOpening(o, o2), "FromDealingsAndOpenings", "%s: differs from FromDealings without provided openings (%v)", opName[k], err)
		v, _, _ := openingValues(o)
		xs, ys = append(xs, X(NI(i))), append(ys, v)
		c.Ev(int(k), tr.a[0], i)
	}
	sub := c.Subset(n, t)
	var sx, sy []*Int
	for _, i := range sub {
		sx, sy = append(sx, xs[i]), append(sy, ys[i])
	}
	c.Check(ref.InterpolateAt(bi(0), sx, sy).Cmp(tr.a[0]) == 0, "secret", "openings of %v do not interpolate to the secret", sub)
	// refusals
	i := c.Int(n)
	refuse := func(what string, f func() (poly.CommitmentOpening, error)) {
		var o poly.CommitmentOpening
		var err error
		c.NoPanic("crash", what, func() { o, err = f() })
		c.Check(err != nil && o == nil, "refuse", "%s: receiver %d opens with %s", opName[k], i, what)
		c.Ev(what, int(k), tr.a[0], i)
		c.Obs("refused: "+what, 1)
	}
	CO := dealings.CommitmentOpening
	refuse("other associated data", func() (poly.CommitmentOpening, error) {
		return CO.FromDealings(dm, tr.lib.CombinedCommitment, mutAD(c, ad), NI(i), com.sk(i), com.pk(i))
	})
	if n > 1 {
		refuse("another receiver's index", func() (poly.CommitmentOpening, error) {
			return CO.FromDealings(dm, tr.lib.CombinedCommitment, ad, NI((i+1)%n), com.sk(i), com.pk(i))
		})
	}
	j := c.Int(nd)
	bad := append([]*dealt{}, tr.ds...)
	y := *bad[j]
	y.lib = corruptShare(c, y.lib, []int{i})
	bad[j] = &y
	refuse("a corrupted dealing", func() (poly.CommitmentOpening, error) {
		return CO.FromDealings(dealMap(c, bad), tr.lib.CombinedCommitment, ad, NI(i), com.sk(i), com.pk(i))
	})
	if nd > 1 {
		fewer := append(append([]*dealt{}, tr.ds[:j]...), tr.ds[j+1:]...)
		if k == opRandom || !sameAt(combine(k, fewer, t), tr.pol, NI(i)) {
			refuse("a dealing missing", func() (poly.CommitmentOpening, error) {
				return CO.FromDealings(dealMap(c, fewer), tr.lib.CombinedCommitment, ad, NI(i), com.sk(i), com.pk(i))
			})
		}
	}
	q := tr.points()
	q[c.Int(t)] = q[c.Int(t)].Add(ref.MulG(c.RandScalar()))
	if !ref.EvalPts(q, X(NI(i))).Equal(ref.EvalPts(tr.points(), X(NI(i)))) {
		refuse("another transcript", func() (poly.CommitmentOpening, error) {
			var cc dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: libCM(tr.pol.kind, q)}
			if k == opRandom {
				cc = &dealings.SummationCommitment{PolynomialCommitment: libCM(tr.pol.kind, q)}
			}
			return CO.FromDealings(dm, cc, ad, NI(i), com.sk(i), com.pk(i))
		})
	}
	refuse("a transcript of the other kind", func() (poly.CommitmentOpening, error) {
		return CO.FromDealings(dm, &dealings.InterpolationCommitment{PolynomialCommitment: libCM(poly.Simple+poly.Pedersen-tr.pol.kind, tr.points())}, ad, NI(i), com.sk(i), com.pk(i))
	})
	// combining openings directly, by value and by pointer
	var idx []NI
	var vals, ptrs, mixed []poly.CommitmentOpening
	for _, d := range tr.ds {
		v, w := d.at(NI(i))
		idx = append(idx, d.dealer)
		vals = append(vals, mkOpening(tr.pol.kind, v, w))
		ptrs = append(ptrs, ptrOpening(tr.pol.kind, v, w))
		mixed = append(mixed, mkOpening(poly.Simple+poly.Pedersen-tr.pol.kind, v, bi(1)))
	}
	for what, os := range map[string][]poly.CommitmentOpening{"openings": vals, "openings by pointer": ptrs} {
		var o poly.CommitmentOpening
		var err error
		c.NoPanic("crash", what, func() { o, err = CO.CombineOpenings(idx, os, tr.lib.CombinedCommitment, NI(i), K) })
		if err != nil {
			c.Fail("CombineOpenings", "%s: combining correct %s refused: %v", opName[k], what, err)
		}
		checkOpening(c, "CombineOpenings", what, o, &tr.pol, NI(i))
	}
	refuse("openings of the other kind", func() (poly.CommitmentOpening, error) {
		return CO.CombineOpenings(idx, mixed, tr.lib.CombinedCommitment, NI(i), K)
	})
	one := append([]poly.CommitmentOpening{}, vals...)
	one[j] = mixed[j]
	refuse("one opening of the other kind", func() (poly.CommitmentOpening, error) {
		return CO.CombineOpenings(idx, one, tr.lib.CombinedCommitment, NI(i), K)
	})
	one = append([]poly.CommitmentOpening{}, vals...)
	v, w := tr.ds[j].at(NI(i))
	one[j] = mkOpening(tr.pol.kind, ref.Add(v, bi(1)), w)
	refuse("one wrong opening", func() (poly.CommitmentOpening, error) {
		return CO.CombineOpenings(idx, one, tr.lib.CombinedCommitment, NI(i), K)
	})
	one[j] = nil
	refuse("one opening missing", func() (poly.CommitmentOpening, error) {
		return CO.CombineOpenings(idx, one, tr.lib.CombinedCommitment, NI(i), K)
	})
	c.Note("%s: %d dealings, threshold %d of %d", opName[k], nd, t, n)
}

func sameAt(p, q pol, i NI) bool {
	a, b := p.at(i)
	x, y := q.at(i)
	return a.Cmp(x) == 0 && b.Cmp(y) == 0
}

// c19reconstruct: one dealing, openings of others, any receiver index.
func c19reconstruct(c *C) {
	kind := kindOf(c)
	t := sz(c, 1+c.Int(5), 65)
	p := genPol(c, kind, t, 0, nil, nil)
	if c.Int(4) == 0 { // degenerate polynomials
		p.a = coeffsPad(coeffList(c, t), t)
	}
	d := &dealings.IDkgDealingInternal{Commitment: p.raw()}
	m := t + c.Int(4)
	idx := distinctIndices(c, m)
	target := NI(c.Index())
	if c.Int(4) == 0 {
		target = idx[c.Int(m)]
	}
	mk := func(f func(j int, o poly.CommitmentOpening) poly.CommitmentOpening, k int) *omap {
		om := &omap{}
		for j := 0; j < k; j++ {
			o := p.opening(idx[j])
			if f != nil {
				o = f(j, o)
			}
			om.Set(idx[j], o)
		}
		return om
	}
	ptr := func(j int, o poly.CommitmentOpening) poly.CommitmentOpening {
		v, w := p.at(idx[j])
		if c.Bool() {
			return ptrOpening(kind, v, w)
		}
		return o
	}
	for what, f := range map[string]func(int, poly.CommitmentOpening) poly.CommitmentOpening{"openings": nil, "openings by pointer": ptr} {
		for _, k := range []int{t, m} {
			var o poly.CommitmentOpening
			var err error
			c.NoPanic("crash", what, func() { o, err = dealings.ReconstructShareFromOpenings(d, mk(f, k), target) })
			if err != nil {
				c.Fail("Reconstruct", "share %d not reconstructed from %d correct %s (threshold %d): %v", target, k, what, t, err)
			}
			checkOpening(c, "Reconstruct", what, o, p, target)
			c.Ev(what, k, insp.Canon(d.Commitment), int(target))
		}
	}
	c.Obs(fmt.Sprintf("shares of kind %d reconstructed", kind), 1)
	refuse := func(what string, om *omap) {
		var o poly.CommitmentOpening
		var err error
		c.NoPanic("crash", what, func() { o, err = dealings.ReconstructShareFromOpenings(d, om, target) })
		c.Check(err != nil && o == nil, "refuse", "share %d reconstructed from %s (threshold %d, kind %d): %s", target, what, t, kind, insp.Canon(o))
		c.Ev(what, insp.Canon(d.Commitment), int(target))
		c.Obs("refused: "+what, 1)
	}
	for k := 0; k < t; k++ {
		if t > 12 && k > 2 && k < t-4 {
			continue
		}
		refuse("fewer openings than the threshold", mk(nil, k))
	}
	j := c.Int(m)
	k := m
	if j >= t && c.Bool() {
		k = m
	} else if j < t && c.Bool() {
		k = t
	}
	change := func(what string, f func(v, w *Int) poly.CommitmentOpening) {
		if idx[j] != target || m > t || t == 1 {
		}
		om := mk(func(i int, o poly.CommitmentOpening) poly.CommitmentOpening {
			if i == j {
				v, w := p.at(idx[i])
				return f(v, w)
			}
			return o
		}, k)
		// a wrong value at j always moves the interpolated value unless j's
		// weight is zero, i.e. the target is another node of the set
		zero := false
		for i := 0; i < k; i++ {
			if idx[i] == target && i != j {
				zero = true
			}
		}
		if zero {
			return
		}
		refuse(what, om)
	}
	change("one wrong value", func(v, w *Int) poly.CommitmentOpening { return mkOpening(kind, ref.Add(v, c.RandScalar()), w) })
	if kind == poly.Pedersen {
		change("one wrong mask", func(v, w *Int) poly.CommitmentOpening { return mkOpening(kind, v, ref.Add(w, bi(1))) })
		change("value and mask swapped", func(v, w *Int) poly.CommitmentOpening {
			if v.Cmp(w) == 0 {
				w = ref.Add(w, bi(1))
			}
			return mkOpening(kind, w, v)
		})
	}
	kinds := func(what string, f func(v, w *Int) poly.CommitmentOpening) {
		om := mk(func(i int, o poly.CommitmentOpening) poly.CommitmentOpening {
			if i == j {
				v, w := p.at(idx[i])
				return f(v, w)
			}
			return o
		}, m)
		refuse(what, om)
	}
	other := poly.Simple + poly.Pedersen - kind
	kinds("one opening of the other kind", func(v, w *Int) poly.CommitmentOpening { return mkOpening(other, v, w) })
	kinds("one opening of the other kind by pointer", func(v, w *Int) poly.CommitmentOpening { return ptrOpening(other, v, w) })
	kinds("one opening missing", func(v, w *Int) poly.CommitmentOpening { return nil })
	refuse("all openings of the other kind", mk(func(i int, o poly.CommitmentOpening) poly.CommitmentOpening {
		v, w := p.at(idx[i])
		return mkOpening(other, v, w)
	}, m))
	c.Note("kind %d threshold %d, %d openings at %v, target %d", kind, t, m, idx, target)
}
func coeffsPad(a []*Int, n int) []*Int {
	for len(a) < n {
		a = append(a, bi(0))
	}
	return a
}

// c19recover: dealings corrupted for some receivers, recovered from the openings
// of the others.
func c19recover(c *C) {
	k := opKind(c.I % 4)
	n, nd := manyOf(c, 3+c.Int(4))
	l, r := knownFor(c, k, max(2, nd/2))
	com := genCommittee(c, n)
	t := 1 + c.Int(n-1)
	ad := c.ADMax(200)
	nd = max(nd, need(k, l, r, t)+c.Int(3))
	tr := runOp(c, k, l, r, gapped(c, nd), t, com, ad)
	victim := c.Int(n)
	provided := &btree.Map[NI, *omap]{}
	ds := append([]*dealt{}, tr.ds...)
	badDealers := c.Subset(nd, 1+c.Int(nd))
	maxBad := n - t
	for _, j := range badDealers {
		hit := []int{victim}
		for i := 0; i < n && len(hit) < maxBad; i++ {
			if i != victim && c.Int(3) == 0 {
				hit = append(hit, i)
			}
		}
		y := *ds[j]
		y.lib = corruptShare(c, y.lib, hit)
		ds[j] = &y
		isHit := map[int]bool{}
		for _, h := range hit {
			isHit[h] = true
		}
		om := &omap{}
		var good []int
		for i := 0; i < n; i++ {
			if !isHit[i] {
				good = append(good, i)
			}
		}
		for _, g := range c.Subset(len(good), t+c.Int(len(good)-t+1)) {
			i := good[g]
			o, err := dealings.CommitmentOpening.OpenDealing(y.lib, ad, y.dealer, NI(i), com.sk(i), com.pk(i))
			c.Check(err == nil, "OpenDealing", "receiver %d cannot open its good share: %v", i, err)
			checkOpening(c, "OpenDealing", "opening for complaint", o, &y.pol, NI(i))
			if c.Int(3) == 0 { // sent over the wire
				b, _ := o.Serialize()
				o, err = poly.Commitment.Deserialize(b)
				c.Check(err == nil, "Deserialize", "%v", err)
			}
			om.Set(NI(i), o)
		}
		provided.Set(y.dealer, om)
	}
	// some openings for good dealings as well
	for _, d := range ds {
		if _, ok := provided.Get(d.dealer); !ok && c.Int(4) == 0 {
			om := &omap{}
			for _, i := range c.Subset(n, t) {
				om.Set(NI(i), d.opening(NI(i)))
			}
			provided.Set(d.dealer, om)
		}
	}
	dm := dealMap(c, ds)
	open := func(p *btree.Map[NI, *omap]) (o poly.CommitmentOpening, err error) {
		c.NoPanic("crash", "opening with provided shares", func() {
			o, err = dealings.CommitmentOpening.FromDealingsAndOpenings(dm, p, tr.lib.CombinedCommitment, ad, NI(victim), com.sk(victim), com.pk(victim))
		})
		return
	}
	o, err := open(provided)
	if err != nil {
		c.Fail("recover", "%s: receiver %d with %d corrupted dealings of %d cannot recover from openings: %v", opName[k], victim, len(badDealers), nd, err)
	}
	checkOpening(c, "recover", opName[k], o, &tr.pol, NI(victim))
	c.Ev("recovered", int(k), tr.a[0], victim)
	c.Obs("recovered "+opName[k]+" shares", 1)
	_, err = dealings.CommitmentOpening.FromDealings(dm, tr.lib.CombinedCommitment, ad, NI(victim), com.sk(victim), com.pk(victim))
	c.Check(err != nil, "refuse", "corrupted share opened without help")
	// wrong, too few or foreign openings never give a wrong share
	bd := ds[badDealers[c.Int(len(badDealers))]].dealer
	variants := map[string]func(om *omap){
		"one opening wrong": func(om *omap) {
			ks := om.Keys()
			kk := ks[c.Int(len(ks))]
			v, _ := om.Get(kk)
			a, b, _ := openingValues(v)
			om.Set(kk, mkOpening(tr.pol.kind, ref.Add(a, bi(1)), b))
		},
		"an opening under another receiver's index": func(om *omap) {
			ks := om.Keys()
			kk := ks[c.Int(len(ks))]
			v, _ := om.Get(kk)
			om.Delete(kk)
			om.Set(NI(n+5), v)
		},
		"too few openings": func(om *omap) {
			for om.Len() >= t {
				om.Delete(om.Keys()[0])
			}
		},
		"an opening of the other kind": func(om *omap) {
			kk := om.Keys()[0]
			v, _ := om.Get(kk)
			a, _, _ := openingValues(v)
			om.Set(kk, mkOpening(poly.Simple+poly.Pedersen-tr.pol.kind, a, bi(1)))
		},
		"an opening missing": func(om *omap) { om.Set(om.Keys()[0], nil) },
	}
	for what, f := range variants {
		if what == "an opening under another receiver's index" && t == 1 {
			continue // a constant polynomial has the same share everywhere
		}
		p2 := &btree.Map[NI, *omap]{}
		provided.Scan(func(kk NI, om *omap) bool {
			cp := &omap{}
			om.Scan(func(a NI, b poly.CommitmentOpening) bool { cp.Set(a, b); return true })
			if kk == bd {
				f(cp)
			}
			p2.Set(kk, cp)
			return true
		})
		o, err := open(p2)
		c.Check(err != nil && o == nil, "refuse", "%s: share accepted with %s", opName[k], what)
		c.Ev(what, int(k), tr.a[0], victim)
		c.Obs("refused: "+what, 1)
	}
	p2 := &btree.Map[NI, *omap]{}
	provided.Scan(func(kk NI, om *omap) bool {
		if kk != bd {
			p2.Set(kk, om)
		}
		return true
	})
	o, err = open(p2)
	c.Check(err != nil && o == nil, "refuse", "share opened although a corrupted dealing was not replaced")
	c.Note("%s: threshold %d of %d, corrupted dealers %v of %d", opName[k], t, n, badDealers, nd)
	_ = bytes.Equal
	_ = mega.CiphertextSingle
	_ = seed.FromBytes
}

// c19vanishing: dealings whose share (value, mask or both) is zero at the receiver.
func c19vanishing(c *C) {
	k := opKind(c.I % 4)
	n := 1 + c.Int(4)
	me := c.Int(n)
	t := 2 + c.Int(3)
	com := genCommittee(c, n)
	ad := c.ADMax(100)
	kind := k.commitKind()
	tr := &transcript{kind: k, t: t, com: com, ad: ad}
	var zeros []int
	for j, i := range gapped(c, 1+c.Int(5)) {
		p := genPol(c, kind, t, 0, nil, nil)
		mode := c.Int(4)
		if c.I%3 == 0 && j > 0 && c.I%2 == 0 {
			mode = 0
		}
		v, m := p.at(NI(me))
		if mode != 1 {
			v = bi(0)
		}
		if mode != 2 {
			m = bi(0)
		}
		if mode != 3 {
			if kind == poly.Simple {
				m = nil
			}
			p.force(NI(me), v, m)
			zeros = append(zeros, i)
		}
		d := &dealt{kind: k, dealer: NI(i), ad: ad, t: t, com: com, pol: *p}
		f := mkPoly(p.a)
		var ct mega.MEGaCiphertext
		var cm poly.PolynomialCommitment
		var err error
		if kind == poly.Pedersen {
			ct, cm, err = dealings.EncryptAndCommitPairPolynomial(f, mkPoly(p.b), t, com.libPKs(), NI(i), ad, seed.FromBytes(c.Bytes(32)))
		} else {
			ct, cm, err = dealings.EncryptAndCommitSinglePolynomial(f, t, com.libPKs(), NI(i), ad, seed.FromBytes(c.Bytes(32)))
		}
		if err != nil {
			c.Fail("EncryptAndCommit", "polynomial %x not dealt: %v", p.a, err)
		}
		d.lib = &dealings.IDkgDealingInternal{Ciphertext: ct, Commitment: cm}
		tr.ds = append(tr.ds, d)
	}
	tr.pol = combine(k, tr.ds, t)
	var cc dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: libCM(kind, tr.points())}
	if k == opRandom {
		cc = &dealings.SummationCommitment{PolynomialCommitment: libCM(kind, tr.points())}
	}
	dm := dealMap(c, tr.ds)
	CO := dealings.CommitmentOpening
	what := fmt.Sprintf("%s transcript of %d dealings, those of %v vanish at receiver %d", opName[k], len(tr.ds), zeros, me)
	for i := 0; i < n; i++ {
		ask := func(class string, f func() (poly.CommitmentOpening, error)) {
			var o poly.CommitmentOpening
			var err error
			c.NoPanic("crash", what, func() { o, err = f() })
			if err != nil {
				c.Fail(class, "%s: receiver %d cannot open: %v", what, i, err)
			}
			checkOpening(c, class, what, o, &tr.pol, NI(i))
			c.Ev(class, int(k), tr.a[0], i)
		}
		ask("FromDealings", func() (poly.CommitmentOpening, error) {
			return CO.FromDealings(dm, cc, ad, NI(i), com.sk(i), com.pk(i))
		})
		// the share of a corrupted dealing, reconstructed by others, vanishes
		j := c.Int(len(tr.ds))
		y := *tr.ds[j]
		y.lib = corruptShare(c, y.lib, []int{i})
		ds := append([]*dealt{}, tr.ds...)
		ds[j] = &y
		om := &omap{}
		for _, x := range distinctIndices(c, t+c.Int(3)) {
			om.Set(x, y.opening(x))
		}
		om2 := &btree.Map[NI, *omap]{}
		om2.Set(y.dealer, om)
		ask("FromDealingsAndOpenings", func() (poly.CommitmentOpening, error) {
			return CO.FromDealingsAndOpenings(dealMap(c, ds), om2, cc, ad, NI(i), com.sk(i), com.pk(i))
		})
		var idx []NI
		var os []poly.CommitmentOpening
		for _, j := range c.R.Perm(len(tr.ds)) {
			idx, os = append(idx, tr.ds[j].dealer), append(os, tr.ds[j].opening(NI(i)))
		}
		ask("CombineOpenings", func() (poly.CommitmentOpening, error) { return CO.CombineOpenings(idx, os, cc, NI(i), K) })
		for j := range os { // none may be left out, not even one which is zero
			if len(os) > 1 {
				v, w := tr.ds[j].at(NI(i))
				os2 := append([]poly.CommitmentOpening{}, os...)
				for q := range idx {
					if idx[q] == tr.ds[j].dealer {
						os2[q] = mkOpening(kind, ref.Add(v, bi(1)), w)
					}
				}
				o, err := CO.CombineOpenings(idx, os2, cc, NI(i), K)
				c.Check(err != nil && o == nil, "refuse", "%s: receiver %d combines a wrong share of dealer %d", what, i, tr.ds[j].dealer)
			}
		}
	}
	c.Obs("dealings which vanish at a receiver", len(zeros))
	c.Note("%s, threshold %d of %d", what, t, n)
}
