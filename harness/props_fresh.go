package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C29", MinEval: 2000,
		Rule: "one evaluation compares one secret random value (recovered from shares and proofs with the harness's own keys and witnesses, or as its image in the group) with every other value of its run, or one operation with its repetition; distinct by value",
		Gens: []core.Gen{
			{Name: "dealing", Quick: 80, Thorough: 6000, Run: c29dealing},
			{Name: "large-dealing", Quick: 8, Thorough: 120, Run: c29dealing},
			{Name: "coefficients", Quick: 20, Thorough: 300, Run: c29coefficients},
			{Name: "seeds", Quick: 24, Thorough: 800, Run: c29seeds},
			{Name: "history", Quick: 12, Thorough: 500, Run: c29history},
			{Name: "complaints", Quick: 40, Thorough: 2500, Run: c29complaints},
			{Name: "proofs", Quick: 60, Thorough: 5000, Run: c29proofs},
			{Name: "encryption", Quick: 40, Thorough: 3000, Run: c29encryption},
			{Name: "bits", Quick: 8, Thorough: 60, Run: c29bits},
			{Name: "keys", Quick: 20, Thorough: 1000, Run: c29keys},
			{Name: "reuse", Quick: 30, Thorough: 2000, Run: c29reuse},
		}})
}

// ledger29 knows every secret value of a run by its image in the group.
type ledger29 struct {
	c      *C
	seen   map[string]string // image -> label
	fresh  map[string]bool
	diffs  map[string]string
	opVals []Pt // fresh values of the current operation
	opLab  []string
	chals  map[string]string // nonce image -> challenge
}

func newLedger(c *C) *ledger29 {
	return &ledger29{c: c, seen: map[string]string{}, fresh: map[string]bool{}, diffs: map[string]string{}, chals: map[string]string{}}
}

var weakPts = func() map[string]int64 {
	m := map[string]int64{}
	p := ref.Infinity()
	for i := int64(0); i <= 300; i++ {
		m[string(absPt(p))] = i
		p = p.Add(ref.G)
	}
	return m
}()

// absPt identifies a point up to sign.
func absPt(p Pt) []byte {
	if p.Inf {
		return []byte{0}
	}
	return ref.Bytes32Raw(p.X)
}

// protect records a long-lived secret or a share: it may occur again as such.
func (l *ledger29) protect(label string, v *Int) { l.protectPt(label, ref.MulG(v)) }
func (l *ledger29) protectPt(label string, p Pt) {
	k := string(absPt(p))
	if _, weak := weakPts[k]; weak {
		return // test inputs like 0 or 1
	}
	if o, ok := l.seen[k]; ok && l.fresh[k] {
		l.c.Fail("equals-secret", "%s equals (up to sign) the %s", o, label)
	}
	l.seen[k] = label
}

// draw records a value that must be new.
func (l *ledger29) draw(label string, v *Int) {
	if v.Sign() == 0 {
		l.c.Fail("weak", "%s is zero", label)
	}
	l.c.Ev(label, v)
	l.drawPt(label, ref.MulG(v))
}
func (l *ledger29) drawPt(label string, p Pt) {
	k := string(absPt(p))
	if w, weak := weakPts[k]; weak {
		l.c.Fail("weak", "%s is +-%d", label, w)
	}
	if o, ok := l.seen[k]; ok {
		l.c.Fail("repeated", "%s equals (up to sign) the %s", label, o)
	}
	l.seen[k], l.fresh[k] = label, true
	l.opVals, l.opLab = append(l.opVals, p), append(l.opLab, label)
	l.c.Obs("secret random values", 1)
	l.c.Ev(label, p)
}

// nonce records a proof nonce with the challenge it answered.
func (l *ledger29) nonce(label string, r *Int) { l.draw(label, r) }

// endOp looks for simple relations among the values of one operation and
// differences that come again in another one.
func (l *ledger29) endOp(what string) {
	for i := range l.opVals {
		for j := 0; j < i; j++ {
			for s, d := range []Pt{l.opVals[i].Sub(l.opVals[j]), l.opVals[i].Add(l.opVals[j])} {
				k := string(absPt(d))
				rel := fmt.Sprintf("%s %c %s", l.opLab[i], "-+"[s], l.opLab[j])
				if w, weak := weakPts[k]; weak {
					l.c.Fail("related", "%s: %s is +-%d", what, rel, w)
				}
				if o, ok := l.seen[k]; ok {
					l.c.Fail("related", "%s: %s is the %s", what, rel, o)
				}
				if o, ok := l.diffs[k]; ok {
					l.c.Fail("related", "%s: %s is the same as %s before", what, rel, o)
				}
				l.diffs[k] = rel
			}
			if l.opVals[i].Add(l.opVals[i]).Equal(l.opVals[j]) || l.opVals[j].Add(l.opVals[j]).Equal(l.opVals[i]) {
				l.c.Fail("related", "%s: one of %s and %s is twice the other", what, l.opLab[i], l.opLab[j])
			}
			l.c.Obs("pairs compared", 1)
		}
	}
	l.opVals, l.opLab = nil, nil
}

// dealing records all secrets of a dealing; v,w,rv,rm are the dealer's shares.
func (l *ledger29) dealing(what string, d *dealt, v, w, rv, rm *Int) {
	c := l.c
	n := func(f string, a ...interface{}) string { return what + ": " + fmt.Sprintf(f, a...) }
	for i, s := range d.com.sks {
		l.protect(n("key of receiver %d", i), s)
	}
	switch d.kind {
	case opReshareMasked:
		l.protect(n("dealer's share"), v)
		l.protect(n("dealer's mask"), w)
	case opReshareUnmasked:
		l.protect(n("dealer's share"), v)
	case opProduct:
		l.protect(n("dealer's left share"), v)
		l.protect(n("dealer's right share"), rv)
		l.protect(n("dealer's right mask"), rm)
		l.protect(n("dealer's product"), ref.Mul(v, rv))
	}
	for i, a := range d.a {
		if i > 0 || d.kind == opRandom {
			l.draw(n("coefficient %d", i), a)
		}
	}
	for i, b := range d.b {
		l.draw(n("mask coefficient %d", i), b)
	}
	x := fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog))
	l.ciphertext(n("ciphertext"), x, d.com.sks, d.com.pks, d.dealer, d.ad)
	switch p := d.lib.Proof.(type) {
	case *dealings.MaskedResharingProof:
		q := zkValues(svs(insp.Scalars(p.ProofOfEqualOpenings)), layoutOf(c, zkEqual))
		l.nonce(n("nonce of the proof of equal openings"), ref.Sub(q.resp[0], ref.Mul(w, q.ch)))
	case *dealings.ProductProof:
		q := zkValues(svs(insp.Scalars(p.ProofOfProduct)), layoutOf(c, zkProduct))
		l.nonce(n("first nonce of the product proof"), ref.Sub(q.resp[0], ref.Mul(v, q.ch)))
		l.nonce(n("second nonce of the product proof"), ref.Sub(q.resp[1], ref.Mul(ref.Sub(d.b[0], ref.Mul(v, rm)), q.ch)))
	default:
		c.Check(d.kind != opReshareMasked && d.kind != opProduct, "proof", "%s without proof", what)
	}
	l.endOp(what)
}

// ciphertext records the ephemeral key, the proof's nonce (both as images) and
// the masks.
func (l *ledger29) ciphertext(what string, x *ct, sks []*Int, pks []Pt, dealer NI, ad []byte) {
	l.drawPt(what+": ephemeral key", x.eph)
	l.drawPt(what+": nonce of the proof of possession", ref.MulG(x.pop.resp[0]).Sub(x.eph.Mul(x.pop.ch)))
	for i := range x.c {
		m := megaMask(x.pair, dealer, NI(i), ad, pks[i], x.eph, x.eph.Mul(sks[i]))
		for j := range m {
			l.draw(fmt.Sprintf("%s: key stream %d of recipient %d", what, j, i), m[j])
		}
	}
	// key streams are hash outputs: compare them with everything, but do not pair them
	k := 0
	for i := range l.opVals {
		if len(l.opLab[i]) < 10 || !containsStr(l.opLab[i], "key stream") {
			l.opVals[k], l.opLab[k] = l.opVals[i], l.opLab[i]
			k++
		}
	}
	l.opVals, l.opLab = l.opVals[:k], l.opLab[:k]
}
func containsStr(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

type dealIn struct {
	k            opKind
	v, w, rv, rm *Int
	t            int
	com          *committee
	dealer       NI
	ad           []byte
}

func genDealIn(c *C, k opKind, n int) *dealIn {
	return &dealIn{k: k, v: c.Scalar(), w: c.RandScalar(), rv: c.Scalar(), rm: c.RandScalar(), t: 1 + c.Int(n), com: genCommittee(c, n), dealer: NI(c.WideIndex()), ad: c.ADMax(300)}
}
func (g *dealIn) deal(c *C, sd []byte) *dealt {
	d := &dealt{kind: g.k, dealer: g.dealer, ad: g.ad, t: g.t, com: g.com}
	lib, err := newDealing(mkShare(g.k, g.v, g.w, g.rv, g.rm), sd, g.t, g.com, g.dealer, g.ad)
	if err != nil {
		c.Fail("NewIDkgDealing", "%v", err)
	}
	d.lib = lib
	d.recover(c)
	return d
}
func (g *dealIn) into(l *ledger29, what string, d *dealt) { l.dealing(what, d, g.v, g.w, g.rv, g.rm) }

// c29dealing: one dealing, and the same again.
func c29dealing(c *C) {
	n := 1 + c.Int(6)
	if isLarge(c) {
		n = []int{17, 18, 24, 33, 34, 40}[c.I/4%6]
	}
	g := genDealIn(c, opKind(c.I%4), n)
	if isLarge(c) {
		g.t = n
	}
	sd := c.Bytes(32)
	d := g.deal(c, sd)
	l := newLedger(c)
	g.into(l, opName[g.k]+" dealing", d)
	d2 := g.deal(c, sd)
	c.Check(insp.Canon(d.lib) == insp.Canon(d2.lib), "deterministic", "%s dealing of the same inputs and seed differs", opName[g.k])
	// one seed object used twice, and derivation from it in between
	so := seed.FromBytes(sd)
	x1, _ := dealings.NewIDkgDealingInternal(mkShare(g.k, g.v, g.w, g.rv, g.rm), K, so, g.t, g.com.libPKs(), g.dealer, g.ad)
	so.Derive("something else").Rng()
	x2, _ := dealings.NewIDkgDealingInternal(mkShare(g.k, g.v, g.w, g.rv, g.rm), K, so, g.t, g.com.libPKs(), g.dealer, g.ad)
	c.Check(insp.Canon(x1) == insp.Canon(x2) && insp.Canon(x1) == insp.Canon(d.lib), "deterministic", "%s dealing depends on how often the seed object was used", opName[g.k])
	c.Ev("deterministic", insp.Canon(d.lib))
	c.Obs("repeated "+opName[g.k]+" dealings equal", 1)
	c.Note("%s dealing, threshold %d of %d", opName[g.k], g.t, g.com.n())
}

// c29coefficients: polynomials of many random coefficients repeat none, neither as
// such nor negated nor one step apart, and the generator can go on after them.
func c29coefficients(c *C) {
	sd := c.Bytes(32)
	rng := seed.FromBytes(sd).Rng()
	seen := map[string]string{}
	add := func(label string, v *Int) {
		if v.Sign() == 0 || v.Cmp(bi(1)) == 0 {
			c.Fail("weak", "%s is %x", label, v)
		}
		for _, w := range []*Int{v, ref.Neg(v), ref.Add(v, bi(1)), ref.Sub(v, bi(1)), ref.Add(v, v)} {
			if o, ok := seen[w.Text(16)]; ok {
				c.Fail("repeated", "%s is %x, and so (or its negative, double or neighbour) is the %s", label, v, o)
			}
		}
		seen[v.Text(16)] = label
		c.Ev(label, v)
	}
	for k := 0; k < 3; k++ {
		n := []int{1, 5, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300}[c.Int(14)]
		p := poly.Poly.Random(K, n, rng)
		cst := c.RandScalar()
		q, err := poly.Poly.RandomWithConstant(S(cst), n, rng)
		if err != nil {
			c.Fail("RandomWithConstant", "%v", err)
		}
		c.Check(seq(q.Coeff(0), cst), "constant", "RandomWithConstant has another constant")
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("coefficient %d of polynomial %d (%d coefficients)", i, k, n), sv(p.Coeff(i)))
			if i > 0 {
				add(fmt.Sprintf("coefficient %d of polynomial %d with constant (%d coefficients)", i, k, n), sv(q.Coeff(i)))
			}
		}
		add("scalar drawn after the polynomials", sv(curve.Scalar.Random(K, rng)))
		c.Obs("coefficients", 2*n)
	}
}

// relatedSeeds are seeds close to each other.
func relatedSeeds(c *C, k int) [][]byte {
	base := c.Bytes(32)
	if c.Int(3) == 0 {
		base = make([]byte, 32)
	}
	out := [][]byte{base}
	add := func(b []byte) {
		for _, o := range out {
			if string(o) == string(b) {
				return
			}
		}
		out = append(out, b)
	}
	for len(out) < k {
		b := append([]byte{}, base...)
		switch c.Int(8) {
		case 0:
			b[31]++
		case 1:
			b = append(b, 0)
		case 2:
			b = b[:31]
		case 3:
			b = append([]byte{0}, b...)
		case 4:
			b = b[:16]
		case 5:
			b = append(b, base...)
		default:
			b[c.Int(32)] ^= 1 << uint(c.Int(8))
		}
		add(b)
	}
	return out
}

// c29seeds: the same operation with different but related seeds shares no
// secret randomness.
func c29seeds(c *C) {
	g := genDealIn(c, opKind(c.I%4), 1+c.Int(3))
	l := newLedger(c)
	k := 6
	if c.Thorough() {
		k = 16
	}
	for i, sd := range relatedSeeds(c, k) {
		g.into(l, fmt.Sprintf("%s dealing with seed %d (%d bytes)", opName[g.k], i, len(sd)), g.deal(c, sd))
	}
	// derived seeds
	base := seed.FromBytes(c.Bytes(32))
	for _, lab := range []string{"", "a", "b", "ab", "ic-crypto-tecdsa-create-dealing-polynomials", "ic-crypto-tecdsa-create-dealing-mega-encrypt", zkDst[zkEqual], zkDst[zkProduct], megaDst(true, "ephemeral-key"), "ic-crypto-tecdsa-complaint-against-0", "ic-crypto-tecdsa-complaint-against-1"} {
		lib, err := dealings.NewIDkgDealingInternal(mkShare(g.k, g.v, g.w, g.rv, g.rm), K, base.Derive(lab), g.t, g.com.libPKs(), g.dealer, g.ad)
		if err != nil {
			c.Fail("NewIDkgDealing", "%v", err)
		}
		d := &dealt{kind: g.k, dealer: g.dealer, ad: g.ad, t: g.t, com: g.com, lib: lib}
		d.recover(c)
		g.into(l, fmt.Sprintf("%s dealing with the seed derived as %q", opName[g.k], lab), d)
	}
	// the underived seed itself
	d := &dealt{kind: g.k, dealer: g.dealer, ad: g.ad, t: g.t, com: g.com}
	d.lib, _ = dealings.NewIDkgDealingInternal(mkShare(g.k, g.v, g.w, g.rv, g.rm), K, base, g.t, g.com.libPKs(), g.dealer, g.ad)
	d.recover(c)
	g.into(l, opName[g.k]+" dealing with the parent seed", d)
	c.Note("%s dealing, %d seeds, %d values", opName[g.k], k+12, len(l.fresh))
}

// c29history: a whole key and presignature generation with complaints.
func c29history(c *C) {
	n := 2 + c.Int(3)
	t := 1 + c.Int((n+1)/2)
	com := genCommittee(c, n)
	ad := c.ADMax(50)
	l := newLedger(c)
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	op := func(name string, k opKind, a, b *transcript) *transcript {
		tr := runOp(c, k, a, b, all, t, com, ad)
		for _, d := range tr.ds {
			var v, w, rv, rm *Int
			if a != nil {
				v, w = a.at(d.dealer)
			}
			if b != nil {
				rv, rm = b.at(d.dealer)
			}
			l.dealing(fmt.Sprintf("%s, dealer %d", name, d.dealer), d, v, w, rv, rm)
		}
		return tr
	}
	mask := op("key mask", opRandom, nil, nil)
	key := op("key", opReshareMasked, mask, nil)
	km := op("nonce mask", opRandom, nil, nil)
	kap := op("nonce", opReshareMasked, km, nil)
	lam := op("lambda", opRandom, nil, nil)
	kl := op("nonce times lambda", opProduct, kap, lam)
	op("key times lambda", opProduct, key, lam)
	op("next key", opReshareUnmasked, key, nil)
	// complaints of every receiver about corrupted dealings
	for r := 0; r < n; r++ {
		var ds []*dealt
		for _, d := range kl.ds {
			ds = append(ds, badShare(c, d, []int{r}))
		}
		l.complaints(fmt.Sprintf("complaints of %d", r), ds, r, com, ad, c.Bytes(32))
	}
	c.Note("%d nodes, threshold %d: %d secret random values", n, t, len(l.fresh))
}

// complaints generates complaints with one seed and records their nonces.
func (l *ledger29) complaints(what string, ds []*dealt, r int, com *committee, ad, sd []byte) {
	c := l.c
	var bad []*dealt
	for _, d := range ds {
		if !shareOpens(c, d, r) {
			bad = append(bad, d)
		}
	}
	if len(bad) == 0 {
		return
	}
	cs, err := complain(dealMap(c, bad), ad, NI(r), com.sk(r), com.pk(r), sd)
	if err != nil {
		c.Fail("GenerateComplaints", "%v", err)
	}
	l.protect("key of the receiver", com.sks[r])
	for _, d := range bad {
		x, ok := cs.Get(d.dealer)
		if !ok {
			c.Fail("GenerateComplaints", "no complaint about %d", d.dealer)
		}
		_, p, _ := complaintParts(c, x)
		l.nonce(fmt.Sprintf("%s: nonce of the complaint about %d", what, d.dealer), ref.Sub(p.resp[0], ref.Mul(com.sks[r], p.ch)))
		c.Obs("complaint nonces", 1)
	}
	l.endOp(what)
	again, err := complain(dealMap(c, bad), ad, NI(r), com.sk(r), com.pk(r), sd)
	c.Check(err == nil && insp.Canon(again) == insp.Canon(cs), "deterministic", "complaints of the same inputs and seed differ")
	// alone or among others, a complaint is the same
	one, err := complain(dealMap(c, bad[:1]), ad, NI(r), com.sk(r), com.pk(r), sd)
	c.Check(err == nil, "GenerateComplaints", "%v", err)
	x, _ := cs.Get(bad[0].dealer)
	y, _ := one.Get(bad[0].dealer)
	c.Ev("again", insp.Canon(x))
	if insp.Canon(x) != insp.Canon(y) { // then it must use another nonce
		_, p, _ := complaintParts(c, y)
		l.nonce(what+": nonce of a single complaint", ref.Sub(p.resp[0], ref.Mul(com.sks[r], p.ch)))
		l.opVals, l.opLab = nil, nil
	}
}

func c29complaints(c *C) {
	n := 1 + c.Int(4)
	com := genCommittee(c, n)
	ad := c.ADMax(100)
	r := c.Int(n)
	var ds []*dealt
	is := gapped(c, 1+c.Int(6))
	if c.I%2 == 0 { // indices that agree in their low or high bits
		is = is[:1]
		if c.Bool() {
			is[0] = c.Int(300)
		}
		for _, k := range c.R.Perm(9)[:1+c.Int(5)] {
			is = append(is, is[0]^1<<[]uint{7, 8, 15, 16, 24, 31, 32, 33, 48}[k])
		}
		sort.Ints(is)
	}
	for _, i := range is {
		ds = append(ds, badShare(c, anyDealing(c, com, NI(i), ad), []int{r}))
	}
	l := newLedger(c)
	for i, sd := range relatedSeeds(c, 5) {
		l.complaints(fmt.Sprintf("complaints with seed %d", i), ds, r, com, ad, sd)
	}
	c.Note("receiver %d of %d, %d bad dealings, 5 seeds", r, n, len(ds))
}

// c29proofs: the same statement proved with different seeds.
func c29proofs(c *C) {
	k := zkKind(c.I % 3)
	w, st := zkGen(c, k)
	ad := c.ADMax(200)
	l := newLedger(c)
	for i, x := range w {
		l.protect(fmt.Sprintf("witness %d", i), x)
	}
	if k == zkProduct {
		l.protect("derived witness", ref.Sub(w[4], ref.Mul(w[0], w[2])))
	}
	lay := layoutOf(c, k)
	for i, sd := range relatedSeeds(c, 6) {
		p, err := zkCreate(k, sd, w, st, ad)
		if err != nil {
			c.Fail("Create", "%v", err)
		}
		q := zkValues(svs(insp.Scalars(p)), lay)
		base := zkRespond(k, w, q.ch, []*Int{bi(0), bi(0)})
		for j := range q.resp {
			l.nonce(fmt.Sprintf("%s proof with seed %d: nonce %d", zkName[k], i, j), ref.Sub(q.resp[j], base[j]))
		}
		l.endOp("proof")
		p2, _ := zkCreate(k, sd, w, st, ad)
		c.Check(insp.Canon(p) == insp.Canon(p2), "deterministic", "%s proof of the same inputs and seed differs", zkName[k])
	}
	c.Note("%s proof, 6 seeds", zkName[k])
}

func c29encryption(c *C) {
	m := genMega(c, 1+c.Int(5))
	l := newLedger(c)
	for i, s := range m.sks {
		l.protect(fmt.Sprintf("key %d", i), s)
	}
	for i, sd := range relatedSeeds(c, 5) {
		m.sd = sd
		e, err := m.encrypt()
		if err != nil {
			c.Fail("Encrypt", "%v", err)
		}
		l.ciphertext(fmt.Sprintf("encryption with seed %d", i), fromLib(e, layoutOf(c, zkDLog)), m.sks, m.pks, m.dealer, m.ad)
		l.endOp("encryption")
		e2, _ := m.encrypt()
		c.Check(insp.Canon(e) == insp.Canon(e2), "deterministic", "encryption of the same inputs and seed differs")
	}
	// both kinds from the same seed share nothing either
	if m.pair {
		m.pair = false
	} else {
		m.pair = true
	}
	e, err := m.encrypt()
	if err != nil {
		c.Fail("Encrypt", "%v", err)
	}
	l.ciphertext("encryption of the other kind with the same seed", fromLib(e, layoutOf(c, zkDLog)), m.sks, m.pks, m.dealer, m.ad)
	c.Note("%d recipients", len(m.pks))
}

// c29bits: every bit of every secret random value varies.
func c29bits(c *C) {
	N := 250
	if c.Thorough() {
		N = 1500
	}
	count := map[string]*[256]int{}
	total := map[string]int{}
	add := func(label string, v *Int) {
		if count[label] == nil {
			count[label] = new([256]int)
		}
		for i := 0; i < 256; i++ {
			count[label][i] += int(v.Bit(i))
		}
		total[label]++
	}
	k := opKind(c.I % 4)
	g := genDealIn(c, k, 2)
	g.t = 2
	zk := zkKind(c.I % 3)
	w, st := zkGen(c, zk)
	lay := layoutOf(c, zk)
	for i := 0; i < N; i++ {
		sd := c.Bytes(32)
		if c.I >= 4 { // counters as seeds
			sd = append(make([]byte, 28), byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
		}
		d := g.deal(c, sd)
		add("coefficient", d.a[1])
		if k == opRandom {
			add("constant", d.a[0])
		}
		if d.b != nil {
			add("mask constant", d.b[0])
			add("mask coefficient", d.b[1])
		}
		x := fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog))
		add("ephemeral key (abscissa)", x.eph.X)
		add("nonce of possession (abscissa)", ref.MulG(x.pop.resp[0]).Sub(x.eph.Mul(x.pop.ch)).X)
		p, err := zkCreate(zk, sd, w, st, nil)
		if err != nil {
			c.Fail("Create", "%v", err)
		}
		q := zkValues(svs(insp.Scalars(p)), lay)
		base := zkRespond(zk, w, q.ch, []*Int{bi(0), bi(0)})
		for j := range q.resp {
			add(fmt.Sprintf("%s nonce %d", zkName[zk], j), ref.Sub(q.resp[j], base[j]))
		}
		add("scalar from seed", sv(curve.Scalar.FromSeed(K, seed.FromBytes(sd))))
	}
	for label, b := range count {
		for i, n := range b {
			// |n - N/2| beyond 7 standard deviations (sigma = sqrt(N)/2)
			dev := int64(2*n - total[label])
			if new(big.Int).Mul(bi(dev), bi(dev)).Cmp(bi(49*int64(total[label]))) > 0 {
				c.Fail("bias", "%s: bit %d of the %s is set in %d of %d", opName[k], i, label, n, total[label])
			}
			c.Ev(label, i, n)
		}
		c.Obs("values in bit counts", total[label])
	}
	c.Note("%s dealings and %s proofs, %d seeds", opName[k], zkName[zk], N)
}

// c29keys: encryption keys and polynomials straight from seeds.
func c29keys(c *C) {
	l := newLedger(c)
	for i, sd := range relatedSeeds(c, 8) {
		pk, sk, err := mega.GenKeypair(K, seed.FromBytes(sd))
		if err != nil {
			c.Fail("GenKeypair", "%v", err)
		}
		v := new(big.Int).SetBytes(sk.Serialize())
		c.Check(peq(pk.PublicPoint(), ref.MulG(v)), "GenKeypair", "public key does not belong to the private key")
		l.draw(fmt.Sprintf("private key of seed %d", i), v)
		pk2, sk2, _ := mega.GenKeypair(K, seed.FromBytes(sd))
		c.Check(insp.Canon(sk) == insp.Canon(sk2) && insp.Canon(pk) == insp.Canon(pk2), "deterministic", "key pair of the same seed differs")
		l.endOp("key")
		// one stream gives new values at every draw
		rng := seed.FromBytes(sd).Derive("verif stream").Rng()
		for j := 0; j < 3; j++ {
			p := poly.Poly.Random(K, 2, rng)
			for q := 0; q < 2; q++ {
				l.draw(fmt.Sprintf("polynomial %d of seed %d: coefficient %d", j, i, q), sv(p.Coeff(q)))
			}
			pc, err := poly.Poly.RandomWithConstant(S(v), 3, rng)
			if err != nil {
				c.Fail("RandomWithConstant", "%v", err)
			}
			c.Check(seq(pc.Coeff(0), v), "RandomWithConstant", "constant lost")
			for q := 1; q < 3; q++ {
				l.draw(fmt.Sprintf("polynomial with constant %d of seed %d: coefficient %d", j, i, q), sv(pc.Coeff(q)))
			}
			l.draw(fmt.Sprintf("random scalar %d of seed %d", j, i), sv(curve.Scalar.Random(K, rng)))
		}
		l.endOp("stream")
	}
	c.Note("8 seeds, %d values", len(l.fresh))
}

// c29reuse: one seed object handed to one operation after the other. What an
// operation returns depends on the value of the seed, not on what the object
// was used for before, and the object keeps its value.
func c29reuse(c *C) {
	n := 1 + c.Int(3)
	com := genCommittee(c, n)
	ad := c.ADMax(60)
	r := c.Int(n)
	var ds []*dealt
	for _, i := range gapped(c, 1+c.Int(2)) {
		ds = append(ds, badShare(c, anyDealing(c, com, NI(i), ad), []int{r}))
	}
	v, w, rv, rm := c.RandScalar(), c.RandScalar(), c.RandScalar(), c.RandScalar()
	t := 1 + c.Int(n)
	dealer := NI(c.Index())
	type use struct {
		name string
		run  func(s *seed.Seed) []interface{}
	}
	var uses []use
	add := func(name string, f func(s *seed.Seed) []interface{}) { uses = append(uses, use{name, f}) }
	add("generator", func(s *seed.Seed) []interface{} {
		b := make([]byte, 40)
		g := s.Rng()
		g.FillUint8(b)
		return res(b, g.Uint32(), g.Uint64())
	})
	add("derivation", func(s *seed.Seed) []interface{} {
		b := make([]byte, 33)
		s.Derive("verif label").Rng().FillUint8(b)
		return res(b)
	})
	add("scalar", func(s *seed.Seed) []interface{} { return res(curve.Scalar.FromSeed(K, s)) })
	add("key pair", func(s *seed.Seed) []interface{} {
		pk, sk, err := mega.GenKeypair(K, s)
		return res(pk, sk, isErr(err))
	})
	add("polynomial", func(s *seed.Seed) []interface{} { return res(poly.Poly.Random(K, 3, s.Rng())) })
	for k := zkDLog; k <= zkProduct; k++ {
		k := k
		ws, st := zkGen(c, k)
		add(zkName[k]+" proof", func(s *seed.Seed) []interface{} {
			p, err := zkCreateObj(k, s, ws, st, ad)
			return res(p, isErr(err))
		})
	}
	add("single encryption", func(s *seed.Seed) []interface{} {
		m := make([]curve.EccScalar, n)
		for i := range m {
			m[i] = S(v)
		}
		x, err := mega.EncryptCiphertextSingle(s, m, com.libPKs(), dealer, ad)
		return res(x, isErr(err))
	})
	add("pair encryption", func(s *seed.Seed) []interface{} {
		m := make([][2]curve.EccScalar, n)
		for i := range m {
			m[i] = [2]curve.EccScalar{S(v), S(w)}
		}
		x, err := mega.EncryptCiphertextPair(s, m, com.libPKs(), dealer, ad)
		return res(x, isErr(err))
	})
	for k := opRandom; k <= opProduct; k++ {
		k := k
		add(opName[k]+" dealing", func(s *seed.Seed) []interface{} {
			x, err := dealings.NewIDkgDealingInternal(mkShare(k, v, w, rv, rm), K, s, t, com.libPKs(), dealer, ad)
			return res(x, isErr(err))
		})
	}
	add("complaint", func(s *seed.Seed) []interface{} {
		x, err := complaints.NewComplaintInternal(s, ds[0].lib, ds[0].dealer, NI(r), com.sk(r), com.pk(r), ad)
		return res(x, isErr(err))
	})
	add("complaints", func(s *seed.Seed) []interface{} {
		x, err := complaints.GenerateComplaints(dealMap(c, ds), ad, NI(r), com.sk(r), com.pk(r), s)
		if err != nil {
			return res(isErr(err))
		}
		var out []interface{}
		x.Scan(func(i NI, y *complaints.IDkgComplaintInternal) bool { out = append(out, int(i), y); return true })
		return out
	})

	sd := c.Bytes(32)
	want := make([]string, len(uses))
	for i, u := range uses {
		want[i] = resultText(u.run(seed.FromBytes(sd)))
	}
	so := seed.FromBytes(sd)
	prev := "nothing"
	for k := 0; k < 3*len(uses); k++ {
		i := c.Int(len(uses))
		if k < len(uses) {
			i = (k + c.I) % len(uses)
		}
		got := resultText(uses[i].run(so))
		if got != want[i] {
			c.Fail("reuse", "%s with a seed object that was used before (last for: %s) differs from the same with a fresh object of the same seed", uses[i].name, prev)
		}
		c.Ev(uses[i].name, prev, sd)
		c.Obs("uses of one seed object compared", 1)
		prev = uses[i].name
	}
	c.Note("one seed object, %d uses of %d operations", 3*len(uses), len(uses))
}
