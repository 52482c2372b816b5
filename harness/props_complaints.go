package main

import (
	"fmt"
	"sort"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C20", MinEval: 300,
		Rule: "one evaluation compares the set of complaints of one receiver with the corruption bookkeeping, or decides one verification of an honest or altered complaint with an independent verifier; distinct by dealing, receiver, associated data and alteration",
		Gens: []core.Gen{
			{Name: "matrix", Quick: 60, Thorough: 2500, Run: c20matrix},
			{Name: "altered", Quick: 70, Thorough: 2500, Run: c20altered},
			{Name: "spurious", Quick: 60, Thorough: 2500, Run: c20spurious},
			{Name: "outside", Quick: 30, Thorough: 800, Run: c20outside},
			{Name: "long-matrix", Quick: 6, Thorough: 200, Run: c20matrix},
			{Name: "long-altered", Quick: 6, Thorough: 200, Run: c20altered},
			{Name: "large-matrix", Quick: 8, Thorough: 120, Run: c20matrix},
			{Name: "counts", Quick: 4, Thorough: 60, Run: c20counts},
		}})
}

type complaint = complaints.IDkgComplaintInternal

func complain(m *dmap, ad []byte, r NI, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey, sd []byte) (*btree.Map[NI, *complaint], error) {
	return complaints.GenerateComplaints(m, ad, r, sk, pk, seed.FromBytes(sd))
}

// complaintAD is the specified context of the complaint's proof.
func complaintAD(ad []byte, receiver, dealer NI, pk Pt) []byte {
	return ref.NewRO("ic-crypto-tecdsa-complaint-proof-assoc-data").Bytes("associated_data", ad).
		Int("receiver_index", uint64(uint32(receiver))).Int("dealer_index", uint64(dealer)).Point("receiver_public_key", pk).OutBytes(32)
}

// complaintParts reads shared secret and proof.
func complaintParts(c *C, x *complaint) (Pt, zkProof, []int) {
	lay := layoutOf(c, zkDLog)
	sc := svs(insp.Scalars(x))
	var ps []Pt
	for _, l := range insp.Leaves(x) {
		if l.Point != nil {
			ps = append(ps, pv(l.Point))
		}
	}
	if len(ps) != 1 || len(sc) != 2 {
		panic(fmt.Sprintf("a complaint has %d points and %d scalars", len(ps), len(sc)))
	}
	return ps[0], zkValues(sc, lay), lay
}

// withParts is a copy of the complaint with other contents.
func withParts(c *C, x *complaint, sec Pt, p zkProof) *complaint {
	_, _, lay := complaintParts(c, x)
	y := insp.Clone(x).(*complaint)
	vals := make([]*Int, 2)
	vals[lay[0]], vals[lay[1]] = p.ch, p.resp[0]
	i := 0
	for _, l := range insp.Leaves(y) {
		if l.Point != nil {
			l.Point.Assign(PR(c, sec))
		} else {
			l.Scalar.Assign(S(vals[i]))
			i++
		}
	}
	return y
}

// shareOpens decides independently whether receiver r's share opens.
func shareOpens(c *C, d *dealt, r int) bool {
	x := fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog))
	s := refDecrypt(x, d.dealer, NI(r), d.ad, d.com.sks[r], d.com.pks[r])
	at := ref.EvalPts(pvs(d.lib.Commitment.Points()), X(NI(r)))
	if x.pair {
		return at.Equal(ref.Pedersen(s[0], s[1]))
	}
	return at.Equal(ref.MulG(s[0]))
}

// refComplaint is the independent complaint verifier.
func refComplaint(c *C, x *complaint, d *dealings.IDkgDealingInternal, dealer, receiver NI, pk Pt, ad []byte) bool {
	sec, p, lay := complaintParts(c, x)
	v := fromLib(d.Ciphertext, lay)
	if !zkRefVerify(zkDLog, zkStmt{ref.G, v.eph, pk, sec}, p, complaintAD(ad, receiver, dealer, pk)) {
		return false
	}
	if int(receiver) < 0 || int(receiver) >= len(v.c) || !refPopOK(v, dealer, ad) {
		return false
	}
	m := megaMask(v.pair, dealer, receiver, ad, pk, v.eph, sec)
	at := ref.EvalPts(pvs(d.Commitment.Points()), X(receiver))
	if v.pair != (d.Commitment.Type() == poly.Pedersen) {
		return false
	}
	if v.pair {
		return !at.Equal(ref.Pedersen(ref.Sub(v.c[receiver][0], m[0]), ref.Sub(v.c[receiver][1], m[1])))
	}
	return !at.Equal(ref.MulG(ref.Sub(v.c[receiver][0], m[0])))
}

// badShare corrupts shares in one of several ways.
func badShare(c *C, d *dealt, recs []int) *dealt {
	y := *d
	switch c.Int(4) {
	case 0: // by one
		lay := layoutOf(c, zkDLog)
		v := fromLib(d.lib.Ciphertext, lay)
		for _, i := range recs {
			j := c.Int(len(v.c[i]))
			v.c[i][j] = ref.Add(v.c[i][j], bi(1))
		}
		y.lib = altDealing(d.lib)
		y.lib.Ciphertext = toLib(v, lay)
	case 1: // negated plaintext, or value and mask swapped
		lay := layoutOf(c, zkDLog)
		v := fromLib(d.lib.Ciphertext, lay)
		for _, i := range recs {
			m := megaMask(v.pair, d.dealer, NI(i), d.ad, d.com.pks[i], v.eph, v.eph.Mul(d.com.sks[i]))
			s := refDecrypt(v, d.dealer, NI(i), d.ad, d.com.sks[i], d.com.pks[i])
			if v.pair && s[0].Cmp(s[1]) != 0 {
				s[0], s[1] = s[1], s[0]
			} else if s[0].Sign() != 0 {
				s[0] = ref.Neg(s[0])
			} else {
				s[0] = bi(1)
			}
			for j := range s {
				v.c[i][j] = ref.Add(s[j], m[j])
			}
		}
		y.lib = altDealing(d.lib)
		y.lib.Ciphertext = toLib(v, lay)
	case 2: // a zero ciphertext
		lay := layoutOf(c, zkDLog)
		v := fromLib(d.lib.Ciphertext, lay)
		for _, i := range recs {
			v.c[i][0] = bi(0)
		}
		y.lib = altDealing(d.lib)
		y.lib.Ciphertext = toLib(v, lay)
	default:
		y.lib = corruptShare(c, d.lib, recs)
	}
	return &y
}

// anyDealing is a dealing of random kind for the committee.
func anyDealing(c *C, com *committee, dealer NI, ad []byte) *dealt {
	d := &dealt{kind: opKind(c.Int(4)), dealer: dealer, ad: ad, t: threshold(c, com.n()), com: com}
	lib, err := newDealing(mkShare(d.kind, c.Scalar(), c.Scalar(), c.Scalar(), c.Scalar()), c.Bytes(32), d.t, com, dealer, ad)
	if err != nil {
		c.Fail("NewIDkgDealing", "%v", err)
	}
	d.lib = lib
	d.recover(c)
	return d
}

func c20matrix(c *C) {
	n, nd := manyOf(c, 1+c.Int(6))
	if isLarge(c) && c.I%4 == 3 { // many receivers for few coefficients
		n, nd = []int{65, 70, 129, 140, 200, 258}[c.Int(6)], 1
	}
	com := genCommittee(c, n)
	ad := c.ADMax(3000)
	dealers := gapped(c, max(nd, 1+c.Int(4)))
	var ds []*dealt
	var lines []string
	for _, i := range dealers {
		d := anyDealing(c, com, NI(i), ad)
		if c.Int(3) > 0 {
			recs := c.Subset(n, c.Int(n+1))
			if n > 33 && c.Int(3) > 0 { // the last ones
				recs = recs[:0]
				for i := n - 1 - c.Int(4); i < n; i++ {
					recs = append(recs, i)
				}
			}
			d = badShare(c, d, recs)
			lines = append(lines, fmt.Sprintf("dealer %d bad for %v", i, recs))
		} else if c.Int(4) == 0 { // a commitment that fits no share
			d.lib = altDealing(d.lib)
			pts := pvs(d.lib.Commitment.Points())
			pts[0] = pts[0].Add(ref.MulG(c.RandScalar()))
			d.lib.Commitment = libCM(d.pol.kind, pts)
			lines = append(lines, fmt.Sprintf("dealer %d bad for all", i))
		}
		ds = append(ds, d)
	}
	dm := dealMap(c, ds)
	for r := 0; r < n; r++ {
		if n > 8 && r%8 != 7 && r != n-1 {
			continue
		}
		var want []int
		for _, d := range ds {
			if !shareOpens(c, d, r) {
				want = append(want, int(d.dealer))
			}
		}
		sd := c.Bytes(32)
		cs, err := complain(dm, ad, NI(r), com.sk(r), com.pk(r), sd)
		if len(want) == 0 {
			c.Check(err != nil && cs == nil, "spurious", "receiver %d has only good shares but complains", r)
			c.Ev("none", c.I, r, insp.Canon(ds[0].lib.Commitment))
			c.Obs("receivers without complaint", 1)
			continue
		}
		if err != nil {
			c.Fail("GenerateComplaints", "receiver %d with bad shares from %v: %v", r, want, err)
		}
		var got []int
		cs.Scan(func(k NI, _ *complaint) bool { got = append(got, int(k)); return true })
		sort.Ints(want)
		c.Check(fmt.Sprint(got) == fmt.Sprint(want), "GenerateComplaints", "receiver %d complains about %v, its bad shares are from %v", r, got, want)
		c.Ev("set", c.I, r, fmt.Sprint(want), insp.Canon(ds[0].lib.Commitment))
		c.Obs("receivers with complaints", 1)
		for _, d := range ds {
			x, ok := cs.Get(d.dealer)
			if !ok {
				continue
			}
			if err := x.Verify(d.lib, d.dealer, NI(r), com.pk(r), ad); err != nil {
				c.Fail("Verify", "complaint of receiver %d about its bad share from %d (%s) rejected: %v", r, d.dealer, opName[d.kind], err)
			}
			sec, _, _ := complaintParts(c, x)
			c.Check(sec.Equal(pv(d.lib.Ciphertext.Ephemeral()).Mul(com.sks[r])), "secret", "the complaint reveals another point than the shared secret")
			c.Check(refComplaint(c, x, d.lib, d.dealer, NI(r), com.pks[r], ad), "interop", "an independent verifier rejects the complaint of %d about %d", r, d.dealer)
			// deterministic in the seed
			again, err := complaints.NewComplaintInternal(seed.FromBytes(sd).Derive(fmt.Sprintf("ic-crypto-tecdsa-complaint-against-%d", d.dealer)), d.lib, d.dealer, NI(r), com.sk(r), com.pk(r), ad)
			c.Check(err == nil && again.Verify(d.lib, d.dealer, NI(r), com.pk(r), ad) == nil, "Verify", "a complaint made directly is rejected")
			c.Ev("verified", insp.Canon(x))
			c.Obs("upheld complaints about "+opName[d.kind]+" dealings", 1)
			// any other dealing, receiver or dealer of the run
			for _, e := range ds {
				if e == d || len(ds) > 8 && c.Int(8) > 0 {
					continue
				}
				c.Check(x.Verify(e.lib, e.dealer, NI(r), com.pk(r), ad) != nil, "accepts", "complaint about dealer %d accepted against dealer %d", d.dealer, e.dealer)
				c.Check(x.Verify(e.lib, d.dealer, NI(r), com.pk(r), ad) != nil, "accepts", "complaint about dealer %d accepted against the dealing of %d", d.dealer, e.dealer)
				c.Check(x.Verify(d.lib, e.dealer, NI(r), com.pk(r), ad) != nil, "accepts", "complaint about dealer %d accepted for dealer index %d", d.dealer, e.dealer)
				c.Ev("cross", insp.Canon(x), int(e.dealer))
			}
			for q := 0; q < n; q++ {
				if q == r || n > 8 && c.Int(8) > 0 {
					continue
				}
				c.Check(x.Verify(d.lib, d.dealer, NI(q), com.pk(r), ad) != nil, "accepts", "complaint of %d accepted for index %d", r, q)
				c.Check(x.Verify(d.lib, d.dealer, NI(r), com.pk(q), ad) != nil, "accepts", "complaint of %d accepted with the key of %d", r, q)
				c.Check(x.Verify(d.lib, d.dealer, NI(q), com.pk(q), ad) != nil, "accepts", "complaint of %d accepted as one of %d", r, q)
				c.Ev("cross-receiver", insp.Canon(x), q)
			}
		}
	}
	c.Note("%d receivers, dealers %v: %v", n, dealers, lines)
}

func c20altered(c *C) {
	n := 1 + c.Int(4)
	com := genCommittee(c, n)
	ad := c.AD()
	r := c.Int(n)
	good := anyDealing(c, com, NI(c.WideIndex()), ad)
	d := badShare(c, good, []int{r})
	if shareOpens(c, d, r) {
		return
	}
	sd := c.Bytes(32)
	x, err := complaints.NewComplaintInternal(seed.FromBytes(sd), d.lib, d.dealer, NI(r), com.sk(r), com.pk(r), ad)
	c.Check(err == nil, "NewComplaint", "%v", err)
	c.Check(x.Verify(d.lib, d.dealer, NI(r), com.pk(r), ad) == nil, "Verify", "honest complaint rejected")
	offer := func(what string, x *complaint, lib *dealings.IDkgDealingInternal, dealer, rec NI, pk Pt, ad []byte) {
		var err error
		c.NoPanic("crash", "complaint with "+what, func() { err = x.Verify(lib, dealer, rec, mega.NewMEGaPublicKey(P(pk)), ad) })
		if err == nil {
			c.Fail("accepts", "complaint about a %s dealing accepted with %s (%d bytes of associated data)", opName[d.kind], what, len(ad))
		}
		c.Ev(what, insp.Canon(x), int(dealer), int(rec), sha(ad, 32))
		c.Obs("rejected: "+what, 1)
	}
	pk := com.pks[r]
	offer("the share correct", x, good.lib, d.dealer, NI(r), pk, ad)
	for _, k := range []NI{d.dealer + 1, d.dealer ^ 256, d.dealer ^ (1 << 16), d.dealer ^ (1 << 24), d.dealer ^ (1 << 32), d.dealer ^ NI(1)<<uint(c.Int(63))} {
		offer("another dealer index", x, d.lib, k, NI(r), pk, ad)
	}
	for i := -1; i <= n+1; i++ {
		if i != r {
			offer("another complainer index", x, d.lib, d.dealer, NI(i), pk, ad)
		}
	}
	offer("an index out of range", x, d.lib, d.dealer, NI(1<<31), pk, ad)
	offer("an index out of range", x, d.lib, d.dealer, NI(r+256), pk, ad)
	for what, k := range map[string]Pt{"another key": ref.MulG(c.RandScalar()), "the negated key": pk.Neg(), "the key infinity": ref.Infinity(), "the key G": ref.G, "the ephemeral key as key": pv(d.lib.Ciphertext.Ephemeral())} {
		if !k.Equal(pk) {
			offer(what, x, d.lib, d.dealer, NI(r), k, ad)
		}
	}
	for w, a := range adVariants(c, ad) {
		offer("associated data "+w, x, d.lib, d.dealer, NI(r), pk, a)
	}
	// the same share dealt again with other randomness
	h, err := newDealing(mkShare(d.kind, c.Scalar(), c.Scalar(), c.Scalar(), c.Scalar()), c.Bytes(32), d.t, com, d.dealer, ad)
	c.Check(err == nil, "NewIDkgDealing", "%v", err)
	offer("another dealing of the dealer", x, h, d.dealer, NI(r), pk, ad)
	offer("another corrupted dealing of the dealer", x, corruptShare(c, h, []int{r}), d.dealer, NI(r), pk, ad)
	y := altDealing(d.lib)
	y.Commitment = libCM(poly.Simple+poly.Pedersen-d.pol.kind, pvs(y.Commitment.Points()))
	offer("a commitment of the other kind", x, y, d.dealer, NI(r), pk, ad)
	// contents of the complaint
	sec, p, _ := complaintParts(c, x)
	for what, s := range map[string]Pt{"another shared secret": ref.MulG(c.RandScalar()), "the shared secret plus G": sec.Add(ref.G), "the shared secret negated": sec.Neg(), "the shared secret infinity": ref.Infinity(),
		"the shared secret of another dealing": pv(h.Ciphertext.Ephemeral()).Mul(com.sks[r])} {
		if !s.Equal(sec) {
			offer(what, withParts(c, x, s, p), d.lib, d.dealer, NI(r), pk, ad)
		}
	}
	for _, u := range units {
		offer("the shared secret "+u.name, withParts(c, x, sec.Mul(u.f), p), d.lib, d.dealer, NI(r), pk, ad)
		// with a proof for the key's multiple
		if s, q := sec.Mul(u.f), nonces(c, zkDLog); true {
			st := zkStmt{ref.G, pv(d.lib.Ciphertext.Ephemeral()), pk.Mul(u.f), s}
			ok := withParts(c, x, s, zkRefProve(zkDLog, zkDst[zkDLog], st, zkWit{ref.Mul(com.sks[r], u.f)}, complaintAD(ad, NI(r), d.dealer, pk), q))
			offer("a proof for the shared secret "+u.name, ok, d.lib, d.dealer, NI(r), pk, ad)
		}
	}
	one := c.RandScalar()
	offer("the challenge changed", withParts(c, x, sec, zkProof{ref.Add(p.ch, one), p.resp}), d.lib, d.dealer, NI(r), pk, ad)
	offer("the response changed", withParts(c, x, sec, zkProof{p.ch, []*Int{ref.Add(p.resp[0], one)}}), d.lib, d.dealer, NI(r), pk, ad)
	offer("a proof of zeros", withParts(c, x, sec, zkProof{bi(0), []*Int{bi(0)}}), d.lib, d.dealer, NI(r), pk, ad)
	if p.ch.Cmp(p.resp[0]) != 0 {
		offer("challenge and response swapped", withParts(c, x, sec, zkProof{p.resp[0], []*Int{p.ch}}), d.lib, d.dealer, NI(r), pk, ad)
	}
	pop := fromLib(d.lib.Ciphertext, layoutOf(c, zkDLog)).pop
	offer("the proof of possession as proof", withParts(c, x, sec, pop), d.lib, d.dealer, NI(r), pk, ad)
	// replays from other contexts of the same receiver
	for what, q := range map[string]*complaint{
		"the proof of a complaint in another context":                   mustComplain(c, d.lib, d.dealer, NI(r), com, r, mutAD(c, ad)),
		"the proof of a complaint about the dealer under another index": mustComplain(c, d.lib, d.dealer+1, NI(r), com, r, ad),
		"the proof of a complaint about another dealing":                mustComplain(c, h, d.dealer, NI(r), com, r, ad),
		"the proof of a complaint under another receiver index":         mustComplain(c, d.lib, d.dealer, NI(r+1), com, r, ad),
	} {
		_, qp, _ := complaintParts(c, q)
		offer(what, withParts(c, x, sec, qp), d.lib, d.dealer, NI(r), pk, ad)
	}
	// an independently made complaint is upheld
	z := withParts(c, x, sec, zkRefProve(zkDLog, zkDst[zkDLog], zkStmt{ref.G, pv(d.lib.Ciphertext.Ephemeral()), pk, sec}, zkWit{com.sks[r]}, complaintAD(ad, NI(r), d.dealer, pk), []*Int{c.RandScalar()}))
	if err := z.Verify(d.lib, d.dealer, NI(r), com.pk(r), ad); err != nil {
		c.Fail("interop", "an independently made complaint is rejected: %v", err)
	}
	c.Ev("interop", insp.Canon(z))
	c.Note("%s dealing %d, receiver %d of %d, %d bytes of associated data", opName[d.kind], d.dealer, r, n, len(ad))
}

func mustComplain(c *C, lib *dealings.IDkgDealingInternal, dealer, rec NI, com *committee, r int, ad []byte) *complaint {
	x, err := complaints.NewComplaintInternal(seed.FromBytes(c.Bytes(32)), lib, dealer, rec, com.sk(r), com.pk(r), ad)
	if err != nil {
		c.Fail("NewComplaint", "%v", err)
	}
	return x
}

// c20spurious: complaints about correct shares, honest and forged.
func c20spurious(c *C) {
	n := 1 + c.Int(4)
	com := genCommittee(c, n)
	ad := c.ADMax(3000)
	r := c.Int(n)
	d := anyDealing(c, com, NI(c.WideIndex()), ad)
	if n > 1 && c.Bool() { // corrupted for everybody else
		var recs []int
		for i := 0; i < n; i++ {
			if i != r {
				recs = append(recs, i)
			}
		}
		d = badShare(c, d, recs)
	}
	offer := func(what string, x *complaint) {
		var err error
		c.NoPanic("crash", what, func() { err = x.Verify(d.lib, d.dealer, NI(r), com.pk(r), ad) })
		if err == nil {
			c.Fail("spurious", "complaint of receiver %d about its correct share of a %s dealing upheld (%s)", r, opName[d.kind], what)
		}
		if refComplaint(c, x, d.lib, d.dealer, NI(r), com.pks[r], ad) {
			panic("the independent verifier upholds a complaint about a correct share")
		}
		c.Ev(what, insp.Canon(x))
		c.Obs("rejected: "+what, 1)
	}
	x := mustComplain(c, d.lib, d.dealer, NI(r), com, r, ad)
	offer("honest proof, correct share", x)
	eph := pv(d.lib.Ciphertext.Ephemeral())
	pad := complaintAD(ad, NI(r), d.dealer, com.pks[r])
	// a wrong shared secret with the best possible proofs
	k := c.RandScalar()
	wrong := eph.Mul(k)
	prove := func(st zkStmt, w *Int, ad []byte) zkProof {
		return zkRefProve(zkDLog, zkDst[zkDLog], st, zkWit{w}, ad, []*Int{c.RandScalar()})
	}
	offer("proof about another key", withParts(c, x, wrong, prove(zkStmt{ref.G, eph, ref.MulG(k), wrong}, k, pad)))
	offer("proof with the key of the wrong secret", withParts(c, x, wrong, prove(zkStmt{ref.G, eph, com.pks[r], wrong}, k, pad)))
	offer("proof with the right key for the wrong secret", withParts(c, x, wrong, prove(zkStmt{ref.G, eph, com.pks[r], wrong}, com.sks[r], pad)))
	e2 := ref.MulG(k)
	offer("proof about another ephemeral key", withParts(c, x, e2.Mul(com.sks[r]), prove(zkStmt{ref.G, e2, com.pks[r], e2.Mul(com.sks[r])}, com.sks[r], pad)))
	offer("proof without context", withParts(c, x, wrong, prove(zkStmt{ref.G, eph, com.pks[r], wrong}, k, nil)))
	_, err := complain(dealMap(c, []*dealt{d}), ad, NI(r), com.sk(r), com.pk(r), c.Bytes(32))
	c.Check(err != nil, "GenerateComplaints", "complaints generated without a bad share")
	c.Ev("generate", insp.Canon(x))
	c.Note("%s dealing %d, receiver %d of %d", opName[d.kind], d.dealer, r, n)
}

// c20outside: complaints of nodes which are not recipients of the dealing.
func c20outside(c *C) {
	n := 1 + c.Int(4)
	com := genCommittee(c, n+1) // the last one holds no share
	all := genCommittee(c, 0)
	all.sks, all.pks = com.sks[:n], com.pks[:n]
	ad := c.ADMax(300)
	d := anyDealing(c, all, NI(c.WideIndex()), ad)
	if c.Bool() {
		d = badShare(c, d, c.Subset(n, c.Int(n+1)))
	}
	for _, i := range []int{n, n + 1, 2 * n, 2*n + 1, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + n, 1<<32 + n - 1, 1<<63 - 1, -1, -n, -n - 1, -1 << 63, c.WideIndex() + n} {
		if i >= 0 && i < n {
			continue
		}
		for _, who := range []int{n, c.Int(n)} {
			var x *complaint
			var err error
			c.NoPanic("crash", fmt.Sprint("complaint of index ", i), func() {
				x, err = complaints.NewComplaintInternal(seed.FromBytes(c.Bytes(32)), d.lib, d.dealer, NI(i), com.sk(who), com.pk(who), ad)
			})
			if err != nil {
				c.Obs("no complaint made", 1)
				continue
			}
			c.NoPanic("crash", fmt.Sprint("complaint of index ", i), func() { err = x.Verify(d.lib, d.dealer, NI(i), com.pk(who), ad) })
			c.Check(err != nil, "spurious", "complaint of node %d about a %s dealing for %d recipients upheld", i, opName[d.kind], n)
			c.Ev(i, who, insp.Canon(x))
			c.Obs("complaints of nodes which are no recipients", 1)
			if who < n { // a recipient's complaint offered under that index
				y := mustComplain(c, d.lib, d.dealer, NI(who), com, who, ad)
				c.NoPanic("crash", fmt.Sprint("complaint of index ", i), func() { err = y.Verify(d.lib, d.dealer, NI(i), com.pk(who), ad) })
				c.Check(err != nil, "spurious", "complaint of recipient %d about a %s dealing for %d recipients upheld as one of node %d", who, opName[d.kind], n, i)
			}
		}
	}
	c.Note("%s dealing %d for %d recipients", opName[d.kind], d.dealer, n)
}
