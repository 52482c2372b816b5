package main

import (
	"fmt"
	"sort"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/tidwall/btree"

	"verif/harness/insp"
	"verif/harness/ref"
)

// The counts generators take every number of contributions (dealings, bad
// dealings, openings) in turn, so that code which works in batches, blocks or
// chunks of any size is seen with every remainder.

const countsMax = 72

// dealerSet: n indices, dense ones from 0 in every other case.
func dealerSet(c *C, n int) []int {
	if c.Bool() {
		out := make([]int, n)
		for i := range out {
			out[i] = i
		}
		return out
	}
	return gapped(c, n)
}

// pool deals once for every dealer; the dealings are to be combined in any number.
func dealPool(c *C, k opKind, n, t int, com *committee, ad []byte) (l, r *transcript, ds []*dealt) {
	l, r = knownFor(c, k, 3)
	for _, i := range dealerSet(c, n) {
		ds = append(ds, dealFor(c, k, l, r, NI(i), t, com, ad))
	}
	return
}

// take gives m of the pool, in the order of their dealers.
func take(c *C, ds []*dealt, m int) []*dealt {
	var out []*dealt
	for _, j := range c.Subset(len(ds), m) {
		out = append(out, ds[j])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].dealer < out[j].dealer })
	return out
}

func c18counts(c *C) {
	k := opKind(c.I % 4)
	t := 1 + c.Int(3)
	com := genCommittee(c, t)
	ad := c.ADMax(60)
	l, r, pool := dealPool(c, k, countsMax, t, com, ad)
	op := opOf(k, l, r)
	for m := need(k, l, r, t); m <= countsMax; m++ {
		ds := take(c, pool, m)
		tr := &transcript{kind: k, t: t, com: com, ad: ad, l: l, r: r, ds: ds, pol: combine(k, ds, t)}
		lib, err := dealings.NewTranscriptInternal(K, t, dealMap(c, ds), op)
		if err != nil {
			c.Fail("NewTranscript", "%s transcript of %d dealings (threshold %d) refused: %v", opName[k], m, t, err)
		}
		tr.lib = lib
		checkTranscript(c, tr)
		i := NI(c.Index())
		c.Check(peq(lib.EvaluateAt(i), ref.EvalPts(tr.points(), X(i))), "EvaluateAt", "EvaluateAt(%d) wrong", i)
		c.Ev(int(k), m, dealersOf(ds), tr.a[0])
		c.Obs("numbers of dealings combined", 1)
	}
	c.Note("%s: every number of dealings up to %d, threshold %d", opName[k], countsMax, t)
}

// badOnes picks which of m dealings are bad: one of them wherever it is, a run
// at either end, or any subset.
func badOnes(c *C, m int) []int {
	switch c.Int(6) {
	case 0:
		return []int{m - 1}
	case 1:
		return []int{0}
	case 2:
		return []int{c.Int(m)}
	case 3: // a tail
		var out []int
		for j := c.Int(m); j < m; j++ {
			out = append(out, j)
		}
		return out
	case 4:
		return c.Subset(m, m)
	}
	return c.Subset(m, 1+c.Int(m))
}

// c19counts: a receiver opens transcripts of every number of dealings, with its
// share of some of them bad and recovered from others' openings.
func c19counts(c *C) {
	k := opKind(c.I % 4)
	total := 36
	t := 1 + c.Int(2)
	n := t + 1 + c.Int(2)
	com := genCommittee(c, n)
	ad := c.ADMax(60)
	l, r, pool := dealPool(c, k, total, t, com, ad)
	op := opOf(k, l, r)
	me := c.Int(n)
	broken := map[NI]*dealt{}
	for _, d := range pool {
		y := *d
		y.lib = corruptShare(c, d.lib, []int{me})
		broken[d.dealer] = &y
	}
	for m := need(k, l, r, t); m <= total; m++ {
		ds := take(c, pool, m)
		want := combine(k, ds, t)
		lib, err := dealings.NewTranscriptInternal(K, t, dealMap(c, ds), op)
		if err != nil {
			c.Fail("NewTranscript", "%s transcript of %d dealings refused: %v", opName[k], m, err)
		}
		dm := dealMap(c, ds)
		o, err := dealings.CommitmentOpening.FromDealings(dm, lib.CombinedCommitment, ad, NI(me), com.sk(me), com.pk(me))
		if err != nil {
			c.Fail("FromDealings", "%s: receiver %d cannot open a transcript of %d dealings: %v", opName[k], me, m, err)
		}
		checkOpening(c, "FromDealings", fmt.Sprintf("%s of %d dealings", opName[k], m), o, &want, NI(me))
		c.Obs("numbers of dealings opened", 1)
		// openings for some dealers only, the dealings good or bad
		which := badOnes(c, m)
		provided := &btree.Map[NI, *omap]{}
		bad := append([]*dealt{}, ds...)
		isBad := c.Int(4) > 0
		for _, j := range which {
			if isBad {
				bad[j] = broken[ds[j].dealer]
			}
			om := &omap{}
			var others []int
			for i := 0; i < n; i++ {
				if i != me {
					others = append(others, i)
				}
			}
			for _, q := range c.Subset(len(others), t+c.Int(len(others)-t+1)) {
				om.Set(NI(others[q]), ds[j].opening(NI(others[q])))
			}
			provided.Set(ds[j].dealer, om)
		}
		bm := dealMap(c, bad)
		o, err = dealings.CommitmentOpening.FromDealingsAndOpenings(bm, provided, lib.CombinedCommitment, ad, NI(me), com.sk(me), com.pk(me))
		if err != nil {
			c.Fail("recover", "%s: receiver %d cannot open a transcript of %d dealings with openings for those at %v (bad: %v): %v", opName[k], me, m, which, isBad, err)
		}
		checkOpening(c, "recover", fmt.Sprintf("%s of %d dealings, openings for those at %v", opName[k], m, which), o, &want, NI(me))
		c.Obs("numbers of dealings recovered", 1)
		if isBad {
			drop := ds[which[c.Int(len(which))]].dealer
			p2 := &btree.Map[NI, *omap]{}
			for _, dealer := range provided.Keys() {
				if dealer != drop {
					om, _ := provided.Get(dealer)
					p2.Set(dealer, om)
				}
			}
			o, err = dealings.CommitmentOpening.FromDealingsAndOpenings(bm, p2, lib.CombinedCommitment, ad, NI(me), com.sk(me), com.pk(me))
			c.Check(err != nil && o == nil, "refuse", "%s: share of %d dealings opened although the bad one of %d was not replaced", opName[k], m, drop)
		}
		// combining openings directly
		var idx []NI
		var os []poly.CommitmentOpening
		for _, j := range c.R.Perm(m) {
			idx = append(idx, ds[j].dealer)
			os = append(os, ds[j].opening(NI(me)))
		}
		if c.Bool() {
			idx, os = nil, nil
			for _, d := range ds {
				idx = append(idx, d.dealer)
				os = append(os, d.opening(NI(me)))
			}
		}
		o, err = dealings.CommitmentOpening.CombineOpenings(idx, os, lib.CombinedCommitment, NI(me), K)
		if err != nil {
			c.Fail("CombineOpenings", "%s: combining %d correct openings refused: %v", opName[k], m, err)
		}
		checkOpening(c, "CombineOpenings", "openings", o, &want, NI(me))
		j := c.Int(m)
		if p := c.Int(m); c.Bool() {
			j = p
		}
		v, w, _ := openingValues(os[j])
		os[j] = mkOpening(want.kind, ref.Add(v, bi(1)), w)
		o, err = dealings.CommitmentOpening.CombineOpenings(idx, os, lib.CombinedCommitment, NI(me), K)
		c.Check(err != nil && o == nil, "refuse", "%s: %d openings with a wrong one at %d combined", opName[k], m, j)
		c.Ev(int(k), m, want.a[0], me)
	}
	c.Note("%s: every number of dealings up to %d, threshold %d of %d", opName[k], total, t, n)
}

// c19many: one dealing, every number of openings up to 72.
func c19many(c *C) {
	kind := kindOf(c)
	t := 1 + c.Int(4)
	if c.I%3 == 2 {
		t = 1 + c.Int(40)
	}
	p := genPol(c, kind, t, 0, nil, nil)
	d := &dealings.IDkgDealingInternal{Commitment: p.raw()}
	idx := distinctIndices(c, countsMax)
	for m := 1; m <= countsMax; m++ {
		if m < t-2 {
			continue
		}
		target := NI(c.Index())
		om := &omap{}
		in := false
		sub := c.Subset(countsMax, m)
		for _, j := range sub {
			om.Set(idx[j], p.opening(idx[j]))
			in = in || idx[j] == target
		}
		var o poly.CommitmentOpening
		var err error
		run := func() {
			c.NoPanic("crash", "reconstruction", func() { o, err = dealings.ReconstructShareFromOpenings(d, om, target) })
		}
		run()
		if m < t {
			c.Check(err != nil && o == nil, "refuse", "share %d reconstructed from %d openings, threshold %d", target, m, t)
		} else {
			if err != nil {
				c.Fail("Reconstruct", "share %d not reconstructed from %d correct openings (threshold %d): %v", target, m, t, err)
			}
			checkOpening(c, "Reconstruct", fmt.Sprintf("%d openings", m), o, p, target)
			if !in {
				j := idx[sub[c.Int(m)]]
				v, w := p.at(j)
				om.Set(j, mkOpening(kind, ref.Add(v, c.RandScalar()), w))
				run()
				c.Check(err != nil && o == nil, "refuse", "share %d reconstructed from %d openings, that of %d is wrong (threshold %d)", target, m, j, t)
			}
		}
		c.Ev(m, insp.Canon(d.Commitment), int(target))
		c.Obs("numbers of openings", 1)
	}
	c.Note("kind %d, threshold %d, every number of openings up to %d", kind, t, countsMax)
}

// c20counts: every number of dealings, any of them bad for the receiver.
func c20counts(c *C) {
	n := 1 + c.Int(3)
	total := 36
	com := genCommittee(c, n)
	ad := c.ADMax(60)
	r := c.Int(n)
	var good []*dealt
	broken := map[NI]*dealt{}
	for _, i := range dealerSet(c, total) {
		d := anyDealing(c, com, NI(i), ad)
		y := badShare(c, d, []int{r})
		if shareOpens(c, y, r) {
			y.lib = corruptShare(c, d.lib, []int{r})
		}
		good, broken[d.dealer] = append(good, d), y
	}
	for m := 1; m <= total; m++ {
		ds := take(c, good, m)
		var want []int
		for _, j := range badOnes(c, m) {
			want = append(want, int(ds[j].dealer))
			ds[j] = broken[ds[j].dealer]
		}
		sort.Ints(want)
		cs, err := complain(dealMap(c, ds), ad, NI(r), com.sk(r), com.pk(r), c.Bytes(32))
		if err != nil {
			c.Fail("GenerateComplaints", "receiver %d with bad shares from %v of %d dealers: %v", r, want, m, err)
		}
		var got []int
		cs.Scan(func(k NI, x *complaint) bool { got = append(got, int(k)); return true })
		c.Check(fmt.Sprint(got) == fmt.Sprint(want), "GenerateComplaints", "receiver %d complains about %v, its bad shares are from %v (of %d)", r, got, want, m)
		for _, d := range ds {
			x, ok := cs.Get(d.dealer)
			if !ok || len(want) > 3 && c.Int(len(want)) > 3 {
				continue
			}
			if err := x.Verify(d.lib, d.dealer, NI(r), com.pk(r), ad); err != nil {
				c.Fail("Verify", "complaint of receiver %d about its bad share from %d (one of %d) rejected: %v", r, d.dealer, m, err)
			}
			c.Check(refComplaint(c, x, d.lib, d.dealer, NI(r), com.pks[r], ad), "interop", "an independent verifier rejects the complaint of %d about %d", r, d.dealer)
			c.Ev("verified", insp.Canon(x))
		}
		c.Ev("set", m, fmt.Sprint(want), insp.Canon(ds[0].lib.Commitment))
		c.Obs("numbers of dealings", 1)
	}
	c.Note("receiver %d of %d, every number of dealings up to %d", r, n, total)
}
