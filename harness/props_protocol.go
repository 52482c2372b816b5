package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	kd "github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C28", MinEval: 500,
		Rule: "one evaluation is one decision of the protocol monitor on an event of a whole run: a dealing's verdict, a receiver's verdict, a complaint, a recovered share, a transcript against the ledger, a signature share or signature; distinct by event and the values involved",
		Assumptions: []string{"the network is the harness: broadcast dealings and complaints, private keys stay with their node",
			"a dealing enters a transcript when at least threshold receivers could verify their share, as the surrounding system guarantees by quorum"},
		Gens: []core.Gen{
			{Name: "large", Quick: 1, Thorough: 8, Run: c28large},
			{Name: "sessions", Quick: 12, Thorough: 260, Run: c28session},
			{Name: "epochs", Quick: 6, Thorough: 100, Run: c28epochs},
			{Name: "byzantine", Quick: 14, Thorough: 260, Run: c28byzantine},
			{Name: "rounds", Quick: 16, Thorough: 160, Run: c28rounds},
		}})
}

// ptrans is a transcript of the run with what each receiver opened.
type ptrans struct {
	*transcript
	open map[int]poly.CommitmentOpening
}

// proto is one run.
type proto struct {
	c      *C
	byz    int // how many dealers misbehave per round at most
	events int
}

func (p *proto) ev(kind string, keys ...interface{}) {
	p.c.Ev(append([]interface{}{kind}, keys...)...)
	p.c.Obs(kind, 1)
	p.events++
}

// shareOf converts the dealer's library openings to a secret share the way the
// protocol does.
func (p *proto) shareOf(k opKind, l, r *ptrans, i int) dealings.SecretShares {
	if k == opRandom {
		return &dealings.RandomSecret{}
	}
	var o2 poly.CommitmentOpeningBytes
	if r != nil {
		o2 = r.open[i].ToCommitmentOpeningBytes()
	}
	s, err := dealings.Secret.From(l.open[i].ToCommitmentOpeningBytes(), o2)
	if err != nil {
		p.c.Fail("Secret.From", "dealer %d cannot use its %s share: %v", i, opName[k], err)
	}
	return s
}

func (t *ptrans) base() *transcript {
	if t == nil {
		return nil
	}
	return t.transcript
}

// round runs one operation among old's dealers for the receivers com.
func (p *proto) round(k opKind, l, r *ptrans, dealersN int, com *committee, t int, ad []byte) *ptrans {
	c := p.c
	op := opOf(k, l.base(), r.base())
	nd := need(k, l.base(), r.base(), t)
	bad := 0
	if p.byz > 0 && dealersN > nd {
		bad = min(p.byz, dealersN-nd)
		if c.Int(4) == 0 {
			bad = c.Int(bad + 1)
		}
	}
	who := c.Subset(dealersN, nd+bad+c.Int(dealersN-nd-bad+1))
	byz := map[int]bool{}
	for _, j := range c.Subset(len(who), bad) {
		byz[who[j]] = true
	}
	var ds []*dealt
	hits := map[NI]map[int]bool{}
	var lastHonest *dealt
	for _, i := range who {
		d := &dealt{kind: k, dealer: NI(i), ad: ad, t: t, com: com}
		share := p.shareOf(k, l, r, i)
		sd := c.Bytes(32)
		lib, err := newDealing(share, sd, t, com, NI(i), ad)
		if err != nil {
			c.Fail("NewIDkgDealing", "%s dealing of %d (threshold %d of %d) refused: %v", opName[k], i, t, com.n(), err)
		}
		d.lib = lib
		d.recover(c)
		check := func(x *dealings.IDkgDealingInternal) (err error) {
			c.NoPanic("crash", "public verification", func() { err = x.PubliclyVerify(K, op, t, NI(i), com.n(), ad) })
			return
		}
		if !byz[i] {
			if err := check(d.lib); err != nil {
				c.Fail("PubliclyVerify", "honest %s dealing of dealer %d rejected: %v", opName[k], i, err)
			}
			p.ev("honest dealing accepted", int(k), d.a[0], i)
			ds = append(ds, d)
			lastHonest = d
			continue
		}
		mode := c.Int(10)
		refused := func(what string, x *dealings.IDkgDealingInternal) {
			c.Check(check(x) != nil, "PubliclyVerify", "%s dealing of dealer %d accepted: %s", opName[k], i, what)
			p.ev("rejected: "+what, int(k), d.a[0], i)
		}
		another := func(sh dealings.SecretShares, t int, com *committee, i NI, ad []byte) *dealings.IDkgDealingInternal {
			x, err := newDealing(sh, sd, t, com, i, ad)
			if err != nil {
				c.Fail("NewIDkgDealing", "%v", err)
			}
			return x
		}
		switch {
		case mode == 0: // silent
			p.ev("dealer silent", i, d.a[0])
		case mode == 1 && lastHonest != nil:
			refused("another dealer's dealing", lastHonest.lib)
		case mode == 2:
			refused("dealing for another context", another(share, t, com, NI(i), append(append([]byte{}, ad...), 7)))
		case mode == 3 && com.n() > 1:
			t2 := t%com.n() + 1
			refused("dealing of another threshold", another(share, t2, com, NI(i), ad))
		case mode == 4 && k != opRandom: // a share the dealer does not hold
			v, w := l.at(NI(i))
			var rv, rw *Int
			if r != nil {
				rv, rw = r.at(NI(i))
			}
			if k == opProduct && c.Bool() {
				rv = ref.Add(rv, bi(1))
			} else if u := units[c.Int(len(units))]; c.Bool() && v.Sign() != 0 && (k != opProduct || rv.Sign() != 0) {
				v = ref.Mul(v, u.f)
			} else {
				v = ref.Add(v, c.RandScalar())
			}
			refused("dealing of a wrong share", another(mkShare(k, v, w, rv, rw), t, com, NI(i), ad))
		case mode == 5: // the right dealing with one commitment point moved
			x := altDealing(d.lib)
			pts := pvs(x.Commitment.Points())
			j := c.Int(len(pts))
			pts[j] = pts[j].Add(ref.MulG(c.RandScalar()))
			x.Commitment = libCM(d.pol.kind, pts)
			if j == 0 && k != opRandom {
				refused("dealing with another constant", x)
				break
			}
			// publicly consistent, but nobody's share opens: gets no support
			y := *d
			y.lib = x
			if check(x) == nil && p.supported(&y, t) {
				c.Fail("PrivateVerify", "%s dealing with a moved commitment is supported by the receivers", opName[k])
			}
			p.ev("dealing without support", int(k), d.a[0], i)
		default: // corrupt the shares of some receivers
			most := com.n()
			if com.n() > t && c.Int(3) > 0 { // mostly few enough for the dealing to be supported
				most -= t
			}
			recs := c.Subset(com.n(), 1+c.Int(most))
			y := badShare(c, d, recs)
			real := map[int]bool{}
			for _, q := range recs {
				if !shareOpens(c, y, q) {
					real[q] = true
				}
			}
			if err := check(y.lib); err != nil {
				c.Fail("PubliclyVerify", "%s dealing of %d with corrupted shares rejected publicly: %v", opName[k], i, err)
			}
			if !p.supported(y, t) {
				c.Check(len(real) > com.n()-t, "PrivateVerify", "dealing with %d bad shares of %d (threshold %d) lacks support", len(real), com.n(), t)
				p.ev("dealing without support", int(k), d.a[0], i)
				break
			}
			c.Check(len(real) <= com.n()-t, "PrivateVerify", "dealing with %d bad shares of %d (threshold %d) is supported", len(real), com.n(), t)
			hits[NI(i)] = real
			p.ev("corrupted dealing accepted", int(k), d.a[0], i, len(real))
			ds = append(ds, y)
		}
	}
	tr := &transcript{kind: k, t: t, com: com, ad: ad, l: l.base(), r: r.base(), ds: ds}
	// every node combines for itself
	var canon string
	for v := 0; v < 2; v++ {
		lib, err := dealings.NewTranscriptInternal(K, t, dealMap(c, ds), op)
		if err != nil {
			c.Fail("NewTranscript", "%s transcript of %d dealings (threshold %d, need %d) refused: %v", opName[k], len(ds), t, nd, err)
		}
		if v > 0 {
			c.Check(insp.Canon(lib) == canon, "transcript", "two nodes combine the same %s dealings differently", opName[k])
		}
		canon = insp.Canon(lib)
		tr.lib = lib
	}
	tr.pol = combine(k, ds, t)
	checkTranscript(c, tr)
	p.ev("transcripts conserving their secrets", int(k), tr.a[0], len(ds))
	// too few dealings never make a transcript
	if nd > 1 {
		few := c.Subset(len(ds), c.Int(nd-1)+1)
		if len(few) < nd {
			var sub []*dealt
			for _, j := range few {
				sub = append(sub, ds[j])
			}
			_, err := dealings.NewTranscriptInternal(K, t, dealMap(c, sub), op)
			c.Check(err != nil, "too-few", "%s transcript from %d dealings, %d needed", opName[k], len(sub), nd)
			p.ev("rejected: too few dealings", int(k), tr.a[0], len(sub))
		}
	}
	out := &ptrans{transcript: tr, open: map[int]poly.CommitmentOpening{}}
	for i := 0; i < com.n(); i++ {
		out.open[i] = p.receive(tr, hits, i)
	}
	// any threshold many openings determine the secret
	var xs, ys []*Int
	for _, i := range c.Subset(com.n(), t) {
		v, _, _ := openingValues(out.open[i])
		xs, ys = append(xs, X(NI(i))), append(ys, v)
	}
	c.Check(ref.InterpolateAt(bi(0), xs, ys).Cmp(tr.a[0]) == 0, "secret", "%s: the receivers' openings do not determine the secret", opName[k])
	return out
}

// supported: at least t receivers verify their share.
func (p *proto) supported(d *dealt, t int) bool {
	n := 0
	for i := 0; i < d.com.n(); i++ {
		if d.lib.PrivateVerify(K, d.com.sk(i), d.com.pk(i), d.ad, d.dealer, NI(i)) == nil {
			n++
		}
	}
	return n >= t
}

// receive is receiver i's side: verify shares, complain, collect openings, open.
func (p *proto) receive(tr *transcript, hits map[NI]map[int]bool, i int) poly.CommitmentOpening {
	c, com := p.c, tr.com
	var bad []int
	for _, d := range tr.ds {
		err := d.lib.PrivateVerify(K, com.sk(i), com.pk(i), tr.ad, d.dealer, NI(i))
		isBad := hits[d.dealer][i]
		c.Check((err != nil) == isBad, "PrivateVerify", "%s: receiver %d: share from %d corrupted=%v, verdict %v", opName[tr.kind], i, d.dealer, isBad, err)
		p.ev("private verdicts", int(tr.kind), tr.a[0], i, int(d.dealer))
		if isBad {
			bad = append(bad, int(d.dealer))
		}
	}
	dm := dealMap(c, tr.ds)
	cs, err := complain(dm, tr.ad, NI(i), com.sk(i), com.pk(i), c.Bytes(32))
	if len(bad) == 0 {
		c.Check(err != nil && cs == nil, "spurious", "receiver %d complains without reason", i)
		o, err := dealings.CommitmentOpening.FromDealings(dm, tr.lib.CombinedCommitment, tr.ad, NI(i), com.sk(i), com.pk(i))
		if err != nil {
			c.Fail("FromDealings", "%s: receiver %d of %d cannot open: %v", opName[tr.kind], i, com.n(), err)
		}
		checkOpening(c, "opening", opName[tr.kind], o, &tr.pol, NI(i))
		p.ev("shares opened", int(tr.kind), tr.a[0], i)
		return p.wire(o)
	}
	if err != nil {
		c.Fail("GenerateComplaints", "receiver %d cannot complain about %v: %v", i, bad, err)
	}
	var got []int
	cs.Scan(func(k NI, _ *complaint) bool { got = append(got, int(k)); return true })
	sort.Ints(bad)
	c.Check(fmt.Sprint(got) == fmt.Sprint(bad), "GenerateComplaints", "receiver %d complains about %v instead of %v", i, got, bad)
	provided := &btree.Map[NI, *omap]{}
	for _, d := range tr.ds {
		x, ok := cs.Get(d.dealer)
		if !ok {
			continue
		}
		om := &omap{}
		var givers []int
		for j := 0; j < com.n(); j++ {
			if j == i {
				continue
			}
			// every other node decides the complaint
			if err := x.Verify(d.lib, d.dealer, NI(i), com.pk(i), tr.ad); err != nil {
				c.Fail("Verify", "%s: justified complaint of %d about %d rejected by %d: %v", opName[tr.kind], i, d.dealer, j, err)
			}
			if hits[d.dealer][j] {
				_, err := dealings.CommitmentOpening.OpenDealing(d.lib, tr.ad, d.dealer, NI(j), com.sk(j), com.pk(j))
				c.Check(err != nil, "OpenDealing", "receiver %d opens its bad share from %d", j, d.dealer)
				continue
			}
			givers = append(givers, j)
		}
		p.ev("complaints upheld", int(tr.kind), tr.a[0], i, int(d.dealer))
		for _, other := range tr.ds { // a replayed complaint
			if other != d && !hits[other.dealer][i] {
				c.Check(x.Verify(other.lib, other.dealer, NI(i), com.pk(i), tr.ad) != nil, "accepts", "complaint about %d upheld against honest dealer %d", d.dealer, other.dealer)
				p.ev("rejected: replayed complaint", int(tr.kind), tr.a[0], i, int(other.dealer))
				break
			}
		}
		for _, j := range c.R.Perm(len(givers)) {
			if om.Len() >= tr.t && c.Bool() {
				continue
			}
			g := givers[j]
			o, err := dealings.CommitmentOpening.OpenDealing(d.lib, tr.ad, d.dealer, NI(g), com.sk(g), com.pk(g))
			if err != nil {
				c.Fail("OpenDealing", "receiver %d cannot open its good share: %v", g, err)
			}
			checkOpening(c, "OpenDealing", "opening after complaint", o, &d.pol, NI(g))
			// a lying helper is noticed with the commitment
			if c.Int(4) == 0 {
				v, w, _ := openingValues(o)
				lie := mkOpening(d.pol.kind, ref.Add(v, bi(1)), w)
				c.Check(!d.lib.Commitment.CheckOpening(NI(g), lie), "CheckOpening", "wrong opening of %d accepted", g)
				p.ev("rejected: wrong opening", int(tr.kind), tr.a[0], g)
			}
			c.Check(d.lib.Commitment.CheckOpening(NI(g), o), "CheckOpening", "right opening of %d rejected", g)
			om.Set(NI(g), p.wire(o))
		}
		c.Check(om.Len() >= tr.t, "harness", "only %d openings", om.Len())
		provided.Set(d.dealer, om)
	}
	o, err := dealings.CommitmentOpening.FromDealingsAndOpenings(dm, provided, tr.lib.CombinedCommitment, tr.ad, NI(i), com.sk(i), com.pk(i))
	if err != nil {
		c.Fail("recover", "%s: receiver %d cannot recover from openings after complaints about %v: %v", opName[tr.kind], i, bad, err)
	}
	checkOpening(c, "recover", opName[tr.kind], o, &tr.pol, NI(i))
	p.ev("shares recovered", int(tr.kind), tr.a[0], i)
	return p.wire(o)
}

// wire sometimes stores an opening serialized, as a node would.
func (p *proto) wire(o poly.CommitmentOpening) poly.CommitmentOpening {
	if p.c.Int(3) > 0 {
		return o
	}
	b, err := o.Serialize()
	if err != nil {
		p.c.Fail("Serialize", "%v", err)
	}
	q, err := poly.Commitment.Deserialize(b)
	if err != nil || !sameOpening(o, q) {
		p.c.Fail("Deserialize", "opening changed by serialization: %v", err)
	}
	return q
}

// keygen makes a key: random, then reshared unmasked.
func (p *proto) keygen(com *committee, t int, ad []byte) *ptrans {
	m := p.round(opRandom, nil, nil, com.n(), com, t, append([]byte("mask"), ad...))
	return p.round(opReshareMasked, m, nil, com.n(), com, t, append([]byte("key"), ad...))
}

// presig is one presignature quadruple.
type presig struct{ kappa, lambda, kl, xl *ptrans }

func (p *proto) presig(key *ptrans, com *committee, t int, ad []byte) *presig {
	n := com.n()
	lam := p.round(opRandom, nil, nil, n, com, t, append([]byte("lambda"), ad...))
	kap := p.keygen(com, t, append([]byte("kappa"), ad...))
	return &presig{kap, lam, p.round(opProduct, kap, lam, n, com, t, append([]byte("kl"), ad...)), p.round(opProduct, key, lam, n, com, t, append([]byte("xl"), ad...))}
}

func (p *proto) session(key *ptrans, q *presig, n, t int) *session {
	c := p.c
	s := &session{n: n, t: t, x: key.a[0], kappa: q.kappa.a[0], lambda: q.lambda.a[0], path: genPath(c), hash: genHash(c), rnd: c.Bytes(32)}
	s.key, s.pre, s.lam, s.kl, s.xl = &key.pol, &q.kappa.pol, &q.lambda.pol, &q.kl.pol, &q.xl.pol
	s.lkey, s.lpre, s.llam, s.lkl, s.lxl = key.lib, q.kappa.lib, q.lambda.lib, q.kl.lib, q.xl.lib
	s.expect()
	return s
}

func (p *proto) sigShare(s *session, q *presig, i int) (*sigShare, error) {
	return sign.NewThresholdEcdsaSigShareInternal(libPath(s.path), s.hash, s.rnd, s.lkey, s.lpre, q.lambda.open[i], q.kl.open[i], q.xl.open[i], K)
}

// sign signs one message; stale is another presignature of the same committee.
func (p *proto) sign(key *ptrans, q, stale *presig, n, t int) {
	c := p.c
	s := p.session(key, q, n, t)
	mpk := &kd.MasterEcdsaPublicKey{PublicKey: key.lib.ConstantTerm().Serialize()}
	c.Check(peq(key.lib.ConstantTerm(), ref.MulG(s.x)), "public-key", "the key transcript's public key is not the key's")
	dpk, err := sign.DerivePublicKey(mpk, libPath(s.path))
	if err != nil {
		c.Fail("DerivePublicKey", "%v", err)
	}
	c.Check(string(dpk.PublicKey) == string(s.pub.Compressed()), "DerivePublicKey", "derived public key %x, want %x", dpk.PublicKey, s.pub.Compressed())
	all := &sigMap{}
	for i := 0; i < n; i++ {
		x, err := p.sigShare(s, q, i)
		if err != nil {
			c.Fail("NewSigShare", "signer %d: %v", i, err)
		}
		if err := s.verifyShare(x, NI(i)); err != nil {
			c.Fail("VerifyShare", "%s: honest share of signer %d rejected: %v", s, i, err)
		}
		s.shareLeaves(c, x, NI(i))
		p.ev("signature shares accepted", s.id(), i)
		all.Set(NI(i), x)
		// misbehaving signers
		offer := func(what string, y *sigShare, j NI) {
			c.Check(s.verifyShare(y, j) != nil, "VerifyShare", "%s: %s of signer %d accepted", s, what, i)
			p.ev("rejected: "+what, s.id(), i, insp.Canon(y))
		}
		switch c.Int(6) {
		case 0:
			y := insp.Clone(x).(*sigShare)
			l := insp.Scalars(y)
			l[c.Int(len(l))].Assign(S(c.RandScalar()))
			offer("random signature share", y, NI(i))
		case 1:
			if n > 1 && t > 1 {
				offer("another signer's share", x, NI((i+1)%n))
			}
		case 2:
			if stale != nil {
				s2 := p.session(key, stale, n, t)
				s2.path, s2.hash, s2.rnd = s.path, s.hash, s.rnd
				s2.expect()
				y, err := p.sigShare(s2, stale, i)
				if err != nil {
					c.Fail("NewSigShare", "%v", err)
				}
				offer("share from another presignature", y, NI(i))
			}
		case 3:
			s2 := *s
			s2.hash = append(append([]byte{}, s.hash...), 1)
			if len(s.hash) >= 32 {
				s2.hash = append([]byte{s.hash[0] ^ 1}, s.hash[1:]...)
			}
			y, err := p.sigShare(&s2, q, i)
			if err != nil {
				c.Fail("NewSigShare", "%v", err)
			}
			offer("share for another message", y, NI(i))
		}
	}
	pick := func(k int) *sigMap {
		m := &sigMap{}
		for _, i := range c.Subset(n, k) {
			x, _ := all.Get(NI(i))
			m.Set(NI(i), x)
		}
		return m
	}
	for _, k := range []int{t, t + c.Int(n-t+1), n} {
		x, err := s.combine(pick(k), t)
		if err != nil {
			c.Fail("Combine", "%s: combining %d shares refused: %v", s, k, err)
		}
		s.checkSig(c, x, fmt.Sprintf("signature of %d signers", k))
		c.Check(x.Verify(libPath(s.path), s.hash, s.rnd, key.lib, q.kappa.lib, K) == nil, "Verify", "signature rejected")
		p.ev("signatures", s.id(), k)
	}
	if t > 1 {
		_, err := s.combine(pick(t-1), t)
		c.Check(err != nil, "too-few", "%s: signature from %d shares", s, t-1)
		p.ev("rejected: too few signature shares", s.id(), t)
	}
	// one bad share among those combined never gives an accepted signature
	m := pick(t)
	y := insp.Clone(m.Values()[0]).(*sigShare)
	l := s.shareLeaves(c, y, m.Keys()[0])
	l[c.Int(2)*2].Add(l[0], S(c.RandScalar()))
	m.Set(m.Keys()[0], y)
	if x, err := s.combine(m, t); err == nil {
		c.Check(s.verify(x) != nil, "Verify", "%s: a signature combined with a bad share is accepted", s)
		r, sg := sv(x.R), sv(x.S)
		c.Check(!ref.ECDSAVerify(s.pub, s.hash, r, sg), "harness", "bad share, good signature")
	}
	p.ev("rejected: signature with a bad share", s.id())
}

// sizes: committee and threshold such that products work with b bad dealers.
func sizes(c *C, max int) (n, t, b int) {
	n = 1 + c.Int(max)
	b = c.Int(n/3 + 1)
	t = 1 + c.Int((n-b+1)/2)
	if c.Bool() {
		t = (n - b + 1) / 2
	}
	return
}

func c28session(c *C) {
	n, t, b := sizes(c, 6)
	p := &proto{c: c, byz: b}
	com := genCommittee(c, n)
	key := p.keygen(com, t, c.ADMax(40))
	q := p.presig(key, com, t, c.ADMax(40))
	var stale *presig
	if c.Int(3) == 0 {
		stale = p.presig(key, com, t, c.ADMax(40))
	}
	p.sign(key, q, stale, n, t)
	c.Note("%d nodes, threshold %d, at most %d bad dealers a round, %d events, public key %x", n, t, b, p.events, key.points()[0].Compressed())
}

func c28byzantine(c *C) {
	n := 4 + c.Int(4)
	b := 1 + c.Int(n/3)
	t := 1 + c.Int((n-b+1)/2)
	p := &proto{c: c, byz: b}
	com := genCommittee(c, n)
	key := p.keygen(com, t, c.ADMax(40))
	q := p.presig(key, com, t, c.ADMax(40))
	p.sign(key, q, nil, n, t)
	c.Note("%d nodes, threshold %d, %d bad dealers, %d events", n, t, b, p.events)
}

// c28epochs: the key moves through committees of any size and signs in each.
func c28epochs(c *C) {
	n, t, b := sizes(c, 5)
	p := &proto{c: c, byz: b}
	com := genCommittee(c, n)
	key := p.keygen(com, t, c.ADMax(40))
	pub := key.points()[0]
	x := new(big.Int).Set(key.a[0])
	var trail []string
	q := p.presig(key, com, t, c.ADMax(20))
	p.sign(key, q, nil, n, t)
	for e := 1 + c.Int(3); e > 0; e-- {
		trail = append(trail, fmt.Sprintf("%d of %d", t, n))
		n2, t2, b2 := sizes(c, 6)
		com2 := genCommittee(c, n2)
		if c.Int(3) == 0 && n2 <= n { // the same nodes stay
			com2.sks, com2.pks = com.sks[:n2], com.pks[:n2]
		}
		old := key
		p.byz = min(b, n-old.t)
		key = p.round(opReshareUnmasked, old, nil, n, com2, t2, c.ADMax(40))
		c.Check(key.points()[0].Equal(pub) && key.a[0].Cmp(x) == 0, "key-moved", "the public key changed from %x to %x", pub.Compressed(), key.points()[0].Compressed())
		c.Check(peq(key.lib.ConstantTerm(), pub), "key-moved", "the public key of the transcript changed")
		p.ev("key handed over", x, n2, t2)
		// shares of different epochs do not mix (unless both polynomials are constant)
		if old.t > 1 && t2 > 1 {
			i := c.Int(min(n, n2))
			c.Check(!key.lib.CombinedCommitment.CheckOpening(NI(i), old.open[i]), "stale", "a share of the previous epoch opens the new key")
			p.ev("rejected: stale key share", x, i)
		}
		n, t, b, com = n2, t2, b2, com2
		p.byz = b
		q = p.presig(key, com, t, c.ADMax(20))
		p.sign(key, q, nil, n, t)
	}
	c.Note("key %x: %v, then %d of %d; %d events", pub.Compressed(), trail, t, n, p.events)
}

func c28large(c *C) {
	n := 10 + c.Int(4)
	if c.Thorough() {
		n = 13 + c.Int(12)
	}
	b := c.Int(n/3 + 1)
	t := (n - b + 1) / 2
	p := &proto{c: c, byz: b}
	com := genCommittee(c, n)
	key := p.keygen(com, t, c.ADMax(40))
	q := p.presig(key, com, t, c.ADMax(40))
	p.sign(key, q, nil, n, t)
	c.Note("%d nodes, threshold %d, at most %d bad dealers, %d events", n, t, b, p.events)
}

// c28rounds: single rounds of shapes whole sessions are too slow for: many
// dealers, committees of other sizes, more helpers than needed.
func c28rounds(c *C) {
	p := &proto{c: c}
	var shape string
	switch c.I % 4 {
	case 0: // many dealers, few receivers
		n, m := 17+c.Int(20), 3+c.Int(3)
		p.byz = 1 + c.Int(8)
		p.round(opRandom, nil, nil, n, genCommittee(c, m), 1+c.Int(m), c.ADMax(40))
		shape = fmt.Sprintf("%d dealers to %d", n, m)
	case 1: // a large committee hands its secret to a small one, and back
		n, m := 10+c.Int(15), 3+c.Int(3)
		t := 1 + c.Int(3)
		l := p.round(opRandom, nil, nil, 2, genCommittee(c, n), t, c.ADMax(40))
		p.byz = 1 + c.Int(4)
		k := p.round(opReshareMasked, l, nil, n, genCommittee(c, m), 1+c.Int(m), c.ADMax(40))
		p.byz = m - k.t
		k = p.round(opReshareUnmasked, k, nil, m, genCommittee(c, n), t, c.ADMax(40))
		p.byz = 1 + c.Int(4)
		p.round(opReshareUnmasked, k, nil, n, genCommittee(c, m), 1+c.Int(m), c.ADMax(40))
		shape = fmt.Sprintf("%d to %d and back", n, m)
	case 2: // a product of many dealers
		n, m := 9+c.Int(14), 3+c.Int(3)
		com := genCommittee(c, n)
		t := 1 + c.Int(min(4, n/2))
		a := p.round(opRandom, nil, nil, 2, com, t, c.ADMax(40))
		l := p.round(opReshareMasked, a, nil, a.t+1, com, t, c.ADMax(40))
		r := p.round(opRandom, nil, nil, 2, com, 1+c.Int(min(4, n/2)), c.ADMax(40))
		p.byz = 1 + c.Int(4)
		p.round(opProduct, l, r, n, genCommittee(c, m), 1+c.Int(m), c.ADMax(40))
		shape = fmt.Sprintf("product of %d for %d", n, m)
	default: // more helpers than any threshold
		n := 7 + c.Int(8)
		p.byz = 3
		p.round(opRandom, nil, nil, 4, genCommittee(c, n), 1+c.Int(3), c.ADMax(40))
		shape = fmt.Sprintf("4 dealers to %d", n)
	}
	c.Note("%s, %d events", shape, p.events)
}

var _ = complaints.GenerateComplaints
var _ = seed.FromBytes
