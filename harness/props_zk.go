package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"sort"
	"sync"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C12", MinEval: 200,
		Rule: "one evaluation checks one proof with the library verifier and an independent one, or one independently made proof with the library verifier; distinct by kind, witness, seed and associated data",
		Gens: []core.Gen{
			{Name: "dlog", Quick: 150, Thorough: 6000, Run: func(c *C) { c12(c, zkDLog) }},
			{Name: "equal", Quick: 150, Thorough: 6000, Run: func(c *C) { c12(c, zkEqual) }},
			{Name: "product", Quick: 150, Thorough: 6000, Run: func(c *C) { c12(c, zkProduct) }},
			{Name: "long-ad", Quick: 24, Thorough: 900, Run: func(c *C) { c12(c, zkKind(c.I%3)) }},
		}})
	core.Register(&core.Prop{ID: "C13", MinEval: 1000,
		Rule: "one evaluation offers the library verifier one altered statement, context, proof or forgery; distinct by alteration and values",
		Gens: []core.Gen{
			{Name: "dlog", Quick: 40, Thorough: 3000, Run: func(c *C) { c13(c, zkDLog) }},
			{Name: "equal", Quick: 40, Thorough: 3000, Run: func(c *C) { c13(c, zkEqual) }},
			{Name: "product", Quick: 40, Thorough: 3000, Run: func(c *C) { c13(c, zkProduct) }},
			{Name: "false", Quick: 120, Thorough: 4000, Run: c13false},
			{Name: "coincident", Quick: 60, Thorough: 2500, Run: c13coincident},
			{Name: "weak", Quick: 120, Thorough: 6000, Run: c13weak},
			{Name: "long-ad", Quick: 12, Thorough: 600, Run: func(c *C) { c13(c, zkKind(c.I%3)) }},
			{Name: "long-weak", Quick: 12, Thorough: 600, Run: c13weak},
		}})
}

type zkKind int

const (
	zkDLog zkKind = iota
	zkEqual
	zkProduct
)

var zkName = []string{"dlog equivalence", "equal openings", "product"}

// zkDst are the documented domain separators of the three proofs.
var zkDst = []string{"ic-crypto-tecdsa-zk-proof-of-dlog-eq", "ic-crypto-tecdsa-zk-proof-of-equal-openings", "ic-crypto-tecdsa-zk-proof-of-product"}

// A statement as the list of its points: dlog g,h,gx,hx; equal pedersen,simple;
// product lhs,rhs,product.
type zkStmt []Pt

// zkWit: dlog x (g,h in stmt); equal s,m; product l,r,rm,p,pm.
type zkWit []*Int

func nResp(k zkKind) int {
	if k == zkProduct {
		return 2
	}
	return 1
}

// zkProof is a proof as values: challenge and responses.
type zkProof struct {
	ch   *Int
	resp []*Int
}

// zkCommits recovers the sigma-protocol commitments the proof implies.
func zkCommits(k zkKind, st zkStmt, p zkProof) []Pt {
	switch k {
	case zkDLog:
		return []Pt{st[0].Mul(p.resp[0]).Sub(st[2].Mul(p.ch)), st[1].Mul(p.resp[0]).Sub(st[3].Mul(p.ch))}
	case zkEqual:
		return []Pt{ref.H.Mul(p.resp[0]).Sub(st[0].Sub(st[1]).Mul(p.ch))}
	}
	return []Pt{ref.MulG(p.resp[0]).Sub(st[0].Mul(p.ch)), st[1].Mul(p.resp[0]).Add(ref.H.Mul(p.resp[1])).Sub(st[2].Mul(p.ch))}
}

// zkChallenge is the specified challenge.
func zkChallenge(k zkKind, dst string, st zkStmt, com []Pt, ad []byte) *Int {
	r := ref.NewRO(dst).Bytes("associated_data", ad)
	switch k {
	case zkDLog:
		r.Point("instance_g", st[0]).Point("instance_h", st[1]).Point("instance_g_x", st[2]).Point("instance_h_x", st[3]).Point("commitment1", com[0]).Point("commitment2", com[1])
	case zkEqual:
		r.Point("instance_g", ref.G).Point("instance_h", ref.H).Point("instance_a", st[0]).Point("instance_b", st[1]).Point("commitment", com[0])
	default:
		r.Point("instance_g", ref.G).Point("instance_h", ref.H).Point("instance_lhs", st[0]).Point("instance_rhs", st[1]).Point("instance_product", st[2]).Point("commitment1", com[0]).Point("commitment2", com[1])
	}
	return r.OutScalars(1)[0]
}

func zkRefVerify(k zkKind, st zkStmt, p zkProof, ad []byte) bool {
	return zkChallenge(k, zkDst[k], st, zkCommits(k, st, p), ad).Cmp(p.ch) == 0
}

// zkRespond gives the responses for nonces r.
func zkRespond(k zkKind, w zkWit, ch *Int, r []*Int) []*Int {
	switch k {
	case zkDLog:
		return []*Int{ref.Add(ref.Mul(w[0], ch), r[0])}
	case zkEqual:
		return []*Int{ref.Add(ref.Mul(w[1], ch), r[0])}
	}
	return []*Int{ref.Add(ref.Mul(w[0], ch), r[0]), ref.Add(ref.Mul(ref.Sub(w[4], ref.Mul(w[0], w[2])), ch), r[1])}
}

func zkCommit(k zkKind, st zkStmt, r []*Int) []Pt {
	switch k {
	case zkDLog:
		return []Pt{st[0].Mul(r[0]), st[1].Mul(r[0])}
	case zkEqual:
		return []Pt{ref.H.Mul(r[0])}
	}
	return []Pt{ref.MulG(r[0]), st[1].Mul(r[0]).Add(ref.H.Mul(r[1]))}
}

func zkRefProve(k zkKind, dst string, st zkStmt, w zkWit, ad []byte, r []*Int) zkProof {
	ch := zkChallenge(k, dst, st, zkCommit(k, st, r), ad)
	return zkProof{ch, zkRespond(k, w, ch, r)}
}

// zkGen makes a witness and its statement.
func zkGen(c *C, k zkKind) (zkWit, zkStmt) { return zkGenWith(c, k, nil) }

// zkGrid fixes the first 48 witnesses of a generator to combinations of 0, 1,
// n-1 and a random value (the full grid for one and two scalars).
func zkGrid(c *C) []*Int {
	if c.I >= 48 {
		return nil
	}
	w := make([]*Int, 5)
	for j := range w {
		k := c.I >> (2 * uint(j)) & 3
		if j >= 2 { // random combinations for the later ones
			k = c.Int(4)
		}
		w[j] = []*Int{new(Int), bi(1), ref.Sub(new(Int), bi(1)), c.RandScalar()}[k]
	}
	return w
}

// zkGenWith uses the given scalars as witness (the product's own value excepted).
func zkGenWith(c *C, k zkKind, fix []*Int) (zkWit, zkStmt) {
	pos := 0
	scalar := func() *Int {
		pos++
		if pos <= len(fix) {
			return fix[pos-1]
		}
		return c.Scalar()
	}
	switch k {
	case zkDLog:
		x := scalar()
		g, h := c.Point(), c.Point()
		switch c.Int(4) {
		case 0:
			g = ref.G
		case 1:
			g, h = ref.G, ref.H
		}
		return zkWit{x}, zkStmt{g, h, g.Mul(x), h.Mul(x)}
	case zkEqual:
		s, m := scalar(), scalar()
		return zkWit{s, m}, zkStmt{ref.Pedersen(s, m), ref.MulG(s)}
	}
	l, r, rm, pm := scalar(), scalar(), scalar(), scalar()
	if fix == nil && c.Int(5) == 0 {
		r = l
	}
	p := ref.Mul(l, r)
	return zkWit{l, r, rm, p, pm}, zkStmt{ref.MulG(l), ref.Pedersen(r, rm), ref.Pedersen(p, pm)}
}

func zkCreate(k zkKind, sd []byte, w zkWit, st zkStmt, ad []byte) (interface{}, error) {
	return zkCreateObj(k, seed.FromBytes(sd), w, st, ad)
}

func zkCreateObj(k zkKind, s *seed.Seed, w zkWit, st zkStmt, ad []byte) (interface{}, error) {
	switch k {
	case zkDLog:
		return zk.ProofOfDLogEquivalenceIns.Create(s, S(w[0]), P(st[0]), P(st[1]), ad)
	case zkEqual:
		return zk.ProofOfEqualOpeningsIns.Create(s, S(w[0]), S(w[1]), ad)
	}
	return zk.ProofOfProductIns.Create(s, S(w[0]), S(w[1]), S(w[2]), S(w[3]), S(w[4]), ad)
}

func zkVerify(c *C, k zkKind, st zkStmt, p interface{}, ad []byte) error {
	l := make([]curve.EccPoint, len(st))
	for i := range st {
		if c == nil {
			l[i] = P(st[i])
		} else {
			l[i] = PR(c, st[i])
		}
	}
	switch x := p.(type) {
	case *zk.ProofOfDLogEquivalence:
		return x.Verify(l[0], l[1], l[2], l[3], ad)
	case *zk.ProofOfEqualOpenings:
		return x.Verify(l[0], l[1], ad)
	case *zk.ProofOfProduct:
		return x.Verify(l[0], l[1], l[2], ad)
	}
	panic("unknown proof")
}

// zkLayout finds which scalar leaf of the library's proof object is the
// challenge and which are the responses, by asking which assignment the
// independent verifier accepts.
func zkLayout(k zkKind, p interface{}, st zkStmt, ad []byte) ([]int, bool) {
	v := svs(insp.Scalars(p))
	for _, l := range perms(len(v)) {
		if len(v) != 1+nResp(k) {
			return nil, false
		}
		if zkRefVerify(k, st, zkValues(v, l), ad) {
			return l, true
		}
	}
	return nil, false
}
func perms(n int) [][]int {
	if n == 2 {
		return [][]int{{0, 1}, {1, 0}}
	}
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}
func zkValues(v []*Int, l []int) zkProof {
	p := zkProof{ch: v[l[0]]}
	for _, i := range l[1:] {
		p.resp = append(p.resp, v[i])
	}
	return p
}

// zkFixedLayout is the layout determined on a generic honest proof.
func zkFixedLayout(k zkKind) []int {
	l, ok := func() ([]int, bool) {
		var w zkWit
		var st zkStmt
		switch k {
		case zkDLog:
			w, st = zkWit{bi(77)}, zkStmt{ref.G, ref.H, ref.MulG(bi(77)), ref.H.Mul(bi(77))}
		case zkEqual:
			w, st = zkWit{bi(5), bi(9)}, zkStmt{ref.Pedersen(bi(5), bi(9)), ref.MulG(bi(5))}
		default:
			w, st = zkWit{bi(5), bi(9), bi(4), bi(45), bi(8)}, zkStmt{ref.MulG(bi(5)), ref.Pedersen(bi(9), bi(4)), ref.Pedersen(bi(45), bi(8))}
		}
		p, err := zkCreate(k, make([]byte, 32), w, st, []byte("layout"))
		if err != nil {
			return nil, false
		}
		return zkLayout(k, p, st, []byte("layout"))
	}()
	if !ok {
		return nil
	}
	return l
}

var (
	layoutOnce [3]sync.Once
	layoutVal  [3][]int
	protoOnce  [3]sync.Once
	protoVal   [3]interface{}
)

// layoutOf fails the case if no assignment of the scalars fits the specification.
func layoutOf(c *C, k zkKind) []int {
	layoutOnce[k].Do(func() { layoutVal[k] = zkFixedLayout(k) })
	l := layoutVal[k]
	if l == nil {
		c.Fail("specification", "an honest %s proof is not the specified sigma proof under its own domain separator", zkName[k])
	}
	return l
}

// zkBuild makes a library proof object with the given values.
func zkBuild(k zkKind, v zkProof, layout []int) interface{} {
	protoOnce[k].Do(func() { protoVal[k] = zkProto(k) })
	p := insp.Clone(protoVal[k])
	zkSet(p, v, layout)
	return p
}
func zkSet(p interface{}, v zkProof, layout []int) {
	s := insp.Scalars(p)
	s[layout[0]].Add(S(v.ch), S(bi(0)))
	for i, r := range v.resp {
		s[layout[i+1]].Add(S(r), S(bi(0)))
	}
}

func nonces(c *C, k zkKind) []*Int {
	r := []*Int{}
	for i := 0; i < nResp(k); i++ {
		r = append(r, c.Scalar())
	}
	return r
}

func zkAD(c *C) []byte { return c.ADMax(5000) }

func c12(c *C, k zkKind) {
	w, st := zkGenWith(c, k, zkGrid(c))
	ad, sd := zkAD(c), c.Bytes(32)
	if c.Int(60) == 0 {
		ad = c.Bytes(70000)
	}
	p, err := zkCreate(k, sd, w, st, ad)
	if err != nil {
		c.Fail("Create", "%s proof for an honest witness refused: %v", zkName[k], err)
	}
	if err := zkVerify(c, k, st, p, ad); err != nil {
		c.Fail("honest", "honest %s proof (ad of %d bytes) rejected: %v", zkName[k], len(ad), err)
	}
	if len(ad) == 0 {
		c.Check(zkVerify(c, k, st, p, nil) == nil && zkVerify(c, k, st, p, []byte{}) == nil, "honest", "nil and empty associated data differ")
	}
	l, ok := zkLayout(k, p, st, ad)
	if !ok {
		c.Fail("interoperate", "honest %s proof (witness %x, ad of %d bytes) is rejected by an independent verifier: its challenge is not the specified oracle value or its responses are wrong", zkName[k], w, len(ad))
	}
	c.Ev("honest", w[0], fmt.Sprintf("%x", w), ad, sd)
	// an independently created proof
	if k == zkDLog && c.Bool() { // any bases
		st[0], st[1] = c.RandPoint(), c.Point()
		st[2], st[3] = st[0].Mul(w[0]), st[1].Mul(w[0])
	}
	fl := layoutOf(c, k)
	r := nonces(c, k)
	q := zkRefProve(k, zkDst[k], st, w, ad, r)
	lp := zkBuild(k, q, fl)
	if err := zkVerify(c, k, st, lp, ad); err != nil {
		c.Fail("interoperate", "an independently created %s proof is rejected: %v", zkName[k], err)
	}
	// the same seed and witness give the same proof, a clone verifies
	p2, err := zkCreate(k, sd, w, st, ad)
	if k != zkDLog {
		c.Check(err == nil && insp.Canon(p) == insp.Canon(p2), "deterministic", "same seed gives another %s proof", zkName[k])
	}
	cl := zkClone(p)
	c.Check(insp.Canon(cl) == insp.Canon(p), "clone", "clone of a %s proof differs", zkName[k])
	before := insp.Canon(p)
	for _, x := range insp.Scalars(cl) {
		x.Add(x, S(bi(1)))
	}
	c.Check(insp.Canon(p) == before, "clone", "changing a clone of a %s proof changes the original", zkName[k])
	c.Ev("independent", fmt.Sprintf("%x%x", w, r), ad)
	c.Obs("honest proofs of "+zkName[k], 1)
	c.Obs("independent proofs of "+zkName[k], 1)
	if len(ad) > 255 {
		c.Obs("associated data over 255 bytes", 1)
	}
	for _, x := range w {
		if x.Sign() == 0 {
			c.Obs("zero in the witness", 1)
			break
		}
	}
	_ = l
	c.Note("%s witness %x ad %d bytes", zkName[k], w, len(ad))
}

func zkClone(p interface{}) interface{} {
	switch x := p.(type) {
	case *zk.ProofOfDLogEquivalence:
		return x.Clone()
	case *zk.ProofOfEqualOpenings:
		return x.Clone()
	case *zk.ProofOfProduct:
		return x.Clone()
	}
	return nil
}

// mutAD gives an associated data different from ad.
func mutAD(c *C, ad []byte) []byte {
	m := append([]byte{}, ad...)
	switch c.Int(6) {
	case 0:
		return append(m, 0)
	case 1:
		return append([]byte{0}, m...)
	case 2:
		return append(m, c.Bytes(256)...)
	case 3:
		if len(m) > 0 {
			return m[:len(m)-1]
		}
		return c.Bytes(1)
	}
	if len(m) == 0 {
		return c.Bytes(1 + c.Int(300))
	}
	if len(m) > 1<<12 && c.Int(3) == 0 { // what a shortened input would confuse it with
		return shortened(c, m)
	}
	i := c.Int(len(m))
	if c.Bool() {
		i = len(m) - 1
	}
	m[i] ^= 1 << uint(c.Int(8))
	return m
}

// shortened: prefixes, suffixes and digests of a long string.
func shortened(c *C, m []byte) []byte {
	vs := shortenings(m)
	var names []string
	for n := range vs {
		names = append(names, n)
	}
	sort.Strings(names)
	return vs[names[c.Int(len(names))]]
}

func shortenings(m []byte) map[string][]byte {
	out := map[string][]byte{}
	for _, n := range []int{1024, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 131072} {
		if len(m) > n {
			out[fmt.Sprintf("cut to %d bytes", n)] = m[:n:n]
			out[fmt.Sprintf("last %d bytes", n)] = m[len(m)-n:]
		}
	}
	for _, k := range []int{8, 16} {
		if n := len(m) & (1<<uint(k) - 1); n < len(m) {
			out[fmt.Sprintf("length modulo 2^%d", k)] = m[:n:n]
		}
	}
	if len(m) > 128 {
		h1, h2, h3 := sha256.Sum256(m), sha512.Sum512(m), sha512.Sum512_256(m)
		out["SHA-256 of it"], out["SHA-512 of it"], out["SHA-512/256 of it"] = h1[:], h2[:], h3[:]
	}
	return out
}

// flipEvery gives changes of the first, last and some middle bytes.
func adVariants(c *C, ad []byte) map[string][]byte {
	out := map[string][]byte{"one byte more": append(append([]byte{}, ad...), 0), "256 bytes more": append(append([]byte{}, ad...), make([]byte, 256)...)}
	if len(ad) > 0 {
		out["one byte less"] = ad[:len(ad)-1]
		for n, i := range map[string]int{"first byte": 0, "last byte": len(ad) - 1, "some byte": c.Int(len(ad))} {
			m := append([]byte{}, ad...)
			m[i] ^= 1 << uint(c.Int(8))
			out[n+" changed"] = m
		}
		if len(ad) > 256 {
			out["cut to 255 bytes"] = ad[:255]
			out["cut to 256 bytes"] = ad[:256]
			m := append([]byte{}, ad...)
			m[256] ^= 1
			out["byte 256 changed"] = m
		}
		if len(ad) > 1<<12 {
			for n, v := range shortenings(ad) {
				out[n] = v
			}
			for _, i := range []int{4095, 4096, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 131071, 131072} {
				if i < len(ad) {
					m := append([]byte{}, ad...)
					m[i] ^= 1 << uint(c.Int(8))
					out[fmt.Sprintf("byte %d changed", i)] = m
				}
			}
		}
	} else {
		out["non-empty"] = c.Bytes(1 + c.Int(40))
	}
	return out
}

func stmtVariants(c *C, st zkStmt) map[string]zkStmt {
	out := map[string]zkStmt{}
	for i := range st {
		m := append(zkStmt{}, st...)
		m[i] = st[i].Add(ref.MulG(c.RandScalar()))
		out[fmt.Sprintf("point %d changed", i)] = m
		m = append(zkStmt{}, st...)
		m[i] = st[i].Add(ref.G)
		out[fmt.Sprintf("point %d plus G", i)] = m
		if !st[i].Inf {
			m = append(zkStmt{}, st...)
			m[i] = st[i].Neg()
			out[fmt.Sprintf("point %d negated", i)] = m
			m = append(zkStmt{}, st...)
			m[i] = ref.Infinity()
			out[fmt.Sprintf("point %d set to infinity", i)] = m
		}
		for j := 0; j < i; j++ {
			if !st[i].Equal(st[j]) {
				m := append(zkStmt{}, st...)
				m[i], m[j] = m[j], m[i]
				out[fmt.Sprintf("points %d and %d swapped", j, i)] = m
			}
		}
	}
	// every combination of negated points, and of points with the same y
	for bits := 1; bits < 1<<uint(len(st)); bits++ {
		for _, u := range units[:2] {
			m, same := append(zkStmt{}, st...), true
			for i := range m {
				if bits>>uint(i)&1 == 1 && !m[i].Inf {
					m[i], same = m[i].Mul(u.f), false
				}
			}
			if !same && bits&(bits-1) != 0 || !same && u.name != units[0].name {
				out[fmt.Sprintf("points %b %s", bits, u.name)] = m
			}
		}
	}
	// shift every point (keeps differences)
	m := append(zkStmt{}, st...)
	d := ref.MulG(c.RandScalar())
	for i := range m {
		m[i] = m[i].Add(d)
	}
	out["all points shifted"] = m
	return out
}

func c13(c *C, k zkKind) {
	w, st := zkGen(c, k)
	ad, sd := c.ADMax(1100), c.Bytes(32)
	p, err := zkCreate(k, sd, w, st, ad)
	c.Check(err == nil, "Create", "%v", err)
	c.Check(zkVerify(c, k, st, p, ad) == nil, "honest", "honest %s proof rejected", zkName[k])
	reject := func(what string, s zkStmt, q interface{}, a []byte) {
		var err error
		c.NoPanic("crash", what, func() { err = zkVerify(c, k, s, q, a) })
		if err == nil {
			c.Fail("accepts", "%s proof accepted with %s (witness %x, ad of %d bytes)", zkName[k], what, w, len(ad))
		}
		c.Ev(what, fmt.Sprintf("%x", w), sd, ad)
		c.Obs(zkName[k]+": rejected "+what, 1)
	}
	for n, s := range stmtVariants(c, st) {
		reject(n, s, p, ad)
	}
	for n, a := range adVariants(c, ad) {
		reject("associated data "+n, st, p, a)
	}
	lay := layoutOf(c, k)
	v := zkValues(svs(insp.Scalars(p)), lay)
	scal := append([]*Int{v.ch}, v.resp...)
	names := []string{"challenge", "response", "second response"}
	neutral := func(i int) bool { // responses that multiply only infinity do not matter
		return k == zkDLog && i == 1 && st[0].Inf && st[1].Inf
	}
	for i := range scal {
		for n, x := range map[string]*Int{"plus one": ref.Add(scal[i], bi(1)), "negated": ref.Neg(scal[i]), "zeroed": bi(0), "random": c.RandScalar()} {
			if x.Cmp(scal[i]) == 0 || neutral(i) {
				continue
			}
			m := append([]*Int{}, scal...)
			m[i] = x
			reject(names[i]+" "+n, st, zkBuild(k, zkProof{m[0], m[1:]}, lay), ad)
		}
	}
	if len(scal) == 3 && scal[1].Cmp(scal[2]) != 0 {
		reject("responses swapped", st, zkBuild(k, zkProof{v.ch, []*Int{scal[2], scal[1]}}, lay), ad)
	}
	// a proof made for another domain separator (the one of another proof kind)
	for j, d := range zkDst {
		if zkKind(j) != k {
			reject("challenge from the oracle of "+zkName[j], st, zkBuild(k, zkRefProve(k, d, st, w, ad, nonces(c, k)), lay), ad)
		}
	}
	// simulated transcript: chosen challenge and responses
	sim := zkProof{c.RandScalar(), nonces(c, k)}
	reject("simulated transcript", st, zkBuild(k, sim, lay), ad)
	// weak challenges: oracle without one of the inputs
	com := zkCommit(k, st, scalList(c, k))
	for n, ch := range map[string]*Int{
		"challenge without associated data": zkChallenge(k, zkDst[k], st, com, nil),
		"zero challenge":                    bi(0),
	} {
		if len(ad) == 0 && n == "challenge without associated data" {
			continue
		}
		r := nonces(c, k)
		if n != "zero challenge" {
			com = zkCommit(k, st, r)
			ch = zkChallenge(k, zkDst[k], st, com, nil)
		}
		reject(n, st, zkBuild(k, zkProof{ch, zkRespond(k, w, ch, r)}, lay), ad)
	}
	c.Note("%s witness %x, %d bytes of associated data", zkName[k], w, len(ad))
}
func scalList(c *C, k zkKind) []*Int { return nonces(c, k) }

// c13false: false statements, by every strategy that does not break the oracle.
func c13false(c *C) {
	k := zkKind(c.Int(3))
	w, st := zkGen(c, k)
	if k == zkDLog && (st[0].Inf || st[1].Inf) {
		st[0], st[1] = ref.G, ref.H
		st[2], st[3] = ref.MulG(w[0]), ref.H.Mul(w[0])
	}
	ad := c.ADMax(600)
	lay := layoutOf(c, k)
	d := []*Int{bi(1), ref.Neg(bi(1)), c.RandScalar()}[c.Int(3)]
	bad := append(zkStmt{}, st...)
	bw := append(zkWit{}, w...)
	switch k {
	case zkDLog:
		j := 2 + c.Int(2)
		bad[j] = bad[j].Add(ref.MulG(d))
	case zkEqual:
		bad[1] = ref.MulG(ref.Add(w[0], d)) // commits to another value
	default:
		bw[3] = ref.Add(w[3], d)
		bad[2] = ref.Pedersen(bw[3], w[4]) // product off by d
	}
	reject := func(what string, q interface{}) {
		if zkVerify(c, k, bad, q, ad) == nil {
			c.Fail("false-statement", "false %s statement accepted (%s)", zkName[k], what)
		}
		c.Ev(what, fmt.Sprintf("%x", w), d)
		c.Obs("false "+zkName[k]+" rejected", 1)
	}
	// prover run on the false witness
	if k == zkProduct {
		q, err := zkCreate(k, c.Bytes(32), bw, bad, ad)
		if err == nil {
			reject("library prover with a wrong product", q)
		}
	}
	q, err := zkCreate(k, c.Bytes(32), w, st, ad)
	c.Check(err == nil, "Create", "%v", err)
	reject("proof of the true statement", q)
	r := nonces(c, k)
	// oracle over the false statement, responses for the true witness
	reject("responses of the true witness", zkBuild(k, zkRefProve(k, zkDst[k], bad, w, ad, r), lay))
	// choose challenge and responses first; commitments follow from them, the
	// challenge does not come from the oracle
	sim := zkProof{c.RandScalar(), nonces(c, k)}
	reject("simulated transcript", zkBuild(k, sim, lay))
	// take the oracle's answer for the simulated commitments as challenge
	ch := zkChallenge(k, zkDst[k], bad, zkCommits(k, bad, sim), ad)
	reject("commitments fixed before the challenge", zkBuild(k, zkProof{ch, sim.resp}, lay))
	// adaptive statement: commitments and challenge of another statement, chosen
	// so that a verifier leaving a point out of the hash would accept
	reject("oracle over the true statement", zkBuild(k, zkRefProve(k, zkDst[k], st, w, ad, r), lay))
	if c.Int(4) == 0 {
		adaptive(c, k, lay, ad)
	}
}

// c13coincident: false statements some of whose points coincide, are opposite or
// infinite, and forgeries which satisfy one of the two relations.
func c13coincident(c *C) {
	k := []zkKind{zkDLog, zkDLog, zkProduct}[c.Int(3)]
	ad := c.ADMax(300)
	lay := layoutOf(c, k)
	inf := Pt{Inf: true}
	var st zkStmt
	var coms [][]Pt
	var resp func(ch *Int) [][]*Int
	what := ""
	x, y := c.RandScalar(), c.RandScalar()
	r, u := c.RandScalar(), c.RandScalar()
	switch k {
	case zkDLog:
		g := []Pt{ref.G, ref.H, c.RandPoint()}[c.Int(3)]
		a, b := r, r // nonces behind the commitments
		switch c.Int(8) {
		case 0:
			what, st = "equal bases, different points", zkStmt{g, g, g.Mul(x), g.Mul(y)}
		case 1:
			what, st = "different bases, the same point", zkStmt{g, g.Mul(u), g.Mul(x), g.Mul(x)}
		case 2:
			what, st = "opposite bases, the same point", zkStmt{g, g.Neg(), g.Mul(x), g.Mul(x)}
		case 3:
			what, st = "equal bases, opposite points", zkStmt{g, g, g.Mul(x), g.Mul(x).Neg()}
		case 4:
			what, st = "the second point infinite", zkStmt{g, g.Mul(u), g.Mul(x), inf}
		case 5:
			what, st = "the second base infinite", zkStmt{g, inf, g.Mul(x), g.Mul(y)}
		case 6:
			what, st = "point and base exchanged", zkStmt{g, g.Mul(x), g.Mul(x), g}
			if ref.Mul(x, x).Cmp(bi(1)) == 0 {
				return
			}
		default:
			what, st = "opposite points", zkStmt{g, g.Mul(u), g.Mul(x), g.Mul(u).Mul(x).Neg()}
		}
		if c.Bool() {
			what += ", mirrored"
			st = zkStmt{st[1], st[0], st[3], st[2]}
		}
		first := []Pt{st[0].Mul(a), st[1].Mul(b), st[2].Mul(a), st[3].Mul(b), inf, st[0].Mul(a).Neg(), st[1].Mul(b).Neg()}
		for _, p := range first {
			coms = append(coms, []Pt{first[0], p}, []Pt{p, first[1]})
		}
		resp = func(ch *Int) [][]*Int {
			var out [][]*Int
			for _, w := range []*Int{x, y, ref.Neg(x), ref.Inv(x), bi(0)} {
				out = append(out, []*Int{ref.Add(ref.Mul(w, ch), r)})
			}
			return out
		}
	default:
		// lhs = x*G, product = x*rhs + m*H; here the product is another one
		l := ref.MulG(x)
		rhs := ref.Pedersen(y, u)
		switch c.Int(6) {
		case 0:
			what, st = "product equal to the right factor", zkStmt{l, rhs, ref.Pedersen(ref.Add(ref.Mul(x, y), bi(1)), u)}
		case 1:
			what, st = "left factor zero, product not", zkStmt{inf, rhs, ref.MulG(y)}
			x = bi(0)
		case 2:
			what, st = "right factor zero, product not", zkStmt{l, inf, ref.MulG(y)}
			y, u = bi(0), bi(0)
		case 3:
			what, st = "product zero, factors not", zkStmt{l, rhs, inf}
		case 4:
			what, st = "all points equal", zkStmt{l, l, l}
			if y, u = x, bi(0); ref.Mul(x, x).Cmp(x) == 0 {
				return
			}
		default:
			what, st = "product opposite", zkStmt{l, rhs, ref.Pedersen(ref.Neg(ref.Mul(x, y)), u)}
		}
		q := c.RandScalar()
		c1, c2 := ref.MulG(r), st[1].Mul(r).Add(ref.H.Mul(q))
		coms = [][]Pt{{c1, c2}, {c1, inf}, {c1, st[1].Mul(r)}, {c1, ref.H.Mul(q)}, {inf, c2}, {c1, c1}, {c2, c2}}
		resp = func(ch *Int) [][]*Int {
			z1 := ref.Add(ref.Mul(x, ch), r)
			var out [][]*Int
			for _, m := range []*Int{bi(0), u, ref.Neg(ref.Mul(x, u)), ref.Sub(u, ref.Mul(x, u)), y} {
				out = append(out, []*Int{z1, ref.Add(ref.Mul(m, ch), q)}, []*Int{ref.Mul(x, ch), ref.Mul(m, ch)})
			}
			return out
		}
	}
	try := func(how string, p zkProof) {
		if zkRefVerify(k, st, p, ad) {
			return // not a false statement after all
		}
		if zkVerify(c, k, st, zkBuild(k, p, lay), ad) == nil {
			c.Fail("false-statement", "false %s statement (%s) accepted: %s", zkName[k], what, how)
		}
		c.Ev(what, how, x, p.ch)
		c.Obs("forgeries for "+what, 1)
	}
	for i, com := range coms {
		ch := zkChallenge(k, zkDst[k], st, com, ad)
		for j, z := range resp(ch) {
			try(fmt.Sprintf("commitments %d, responses %d", i, j), zkProof{ch, z})
		}
	}
	// any proof, and proofs of other contexts
	try("random numbers", zkProof{c.RandScalar(), resp(c.RandScalar())[0]})
	try("zero numbers", zkProof{new(Int), make0(len(nonces(c, k)))})
	ch := zkChallenge(k, zkDst[k], st, coms[0], append([]byte{1}, ad...))
	try("other associated data", zkProof{ch, resp(ch)[0]})
	c.Note("%s: %s", zkName[k], what)
}

func make0(n int) []*Int {
	out := make([]*Int, n)
	for i := range out {
		out[i] = new(Int)
	}
	return out
}

// adaptive forges for verifiers that omit one statement point from the hash:
// fix the commitments and the challenge, then solve for the omitted point.
func adaptive(c *C, k zkKind, lay []int, ad []byte) {
	inv := func(x *Int) *Int { return ref.Inv(x) }
	for omit := 0; omit < map[zkKind]int{zkDLog: 4, zkEqual: 2, zkProduct: 3}[k]; omit++ {
		_, st := zkGen(c, k)
		var com []Pt
		for i := 0; i < map[zkKind]int{zkDLog: 2, zkEqual: 1, zkProduct: 2}[k]; i++ {
			com = append(com, c.RandPoint())
		}
		ch := zkChallengeOmit(k, st, com, ad, omit)
		if ch.Sign() == 0 {
			continue
		}
		var z []*Int
		for range nonces(c, k) {
			z = append(z, c.RandScalar())
		}
		zi, ci := inv(z[0]), inv(ch)
		ok := true
		switch {
		case k == zkDLog && omit == 0: // g = (com + ch*gx)/z
			st[0] = com[0].Add(st[2].Mul(ch)).Mul(zi)
			com[1] = st[1].Mul(z[0]).Sub(st[3].Mul(ch))
			ok = false // com[1] is hashed; only consistent if it was fixed first
		case k == zkDLog && omit == 2:
			r := c.RandScalar()
			com[0], com[1] = c.RandPoint(), st[1].Mul(r)
			st[3] = st[1].Mul(c.RandScalar())
			ok = false
		case k == zkEqual && omit == 0: // a = b + (H z - com)/ch
			st[0] = st[1].Add(ref.H.Mul(z[0]).Sub(com[0]).Mul(ci))
		case k == zkEqual && omit == 1: // b = a - (H z - com)/ch
			st[1] = st[0].Sub(ref.H.Mul(z[0]).Sub(com[0]).Mul(ci))
		case k == zkProduct && omit == 2: // honest for lhs, product solved for
			l, r1 := c.RandScalar(), c.RandScalar()
			st[0] = ref.MulG(l)
			com[0] = ref.MulG(r1)
			ch = zkChallengeOmit(k, st, com, ad, omit)
			ci = inv(ch)
			z[0] = ref.Add(ref.Mul(l, ch), r1)
			st[2] = st[1].Mul(z[0]).Add(ref.H.Mul(z[1])).Sub(com[1]).Mul(ci)
		default:
			ok = false
		}
		if !ok {
			continue
		}
		p := zkBuild(k, zkProof{ch, z}, lay)
		if zkVerify(c, k, st, p, ad) == nil {
			c.Fail("adaptive", "forged %s proof accepted: statement point %d is not bound by the challenge", zkName[k], omit)
		}
		c.Ev("adaptive", int(k), omit, ch)
		c.Obs("adaptive forgeries rejected", 1)
	}
}

func zkChallengeOmit(k zkKind, st zkStmt, com []Pt, ad []byte, omit int) *Int {
	names := [][]string{{"instance_g", "instance_h", "instance_g_x", "instance_h_x"}, {"instance_a", "instance_b"}, {"instance_lhs", "instance_rhs", "instance_product"}}[k]
	r := ref.NewRO(zkDst[k]).Bytes("associated_data", ad)
	if k != zkDLog {
		r.Point("instance_g", ref.G).Point("instance_h", ref.H)
	}
	for i, n := range names {
		if i != omit {
			r.Point(n, st[i])
		}
	}
	if k == zkEqual {
		r.Point("commitment", com[0])
	} else {
		r.Point("commitment1", com[0]).Point("commitment2", com[1])
	}
	return r.OutScalars(1)[0]
}

// zkFields lists what the challenge absorbs, in order.
type zkField struct {
	tag string
	pt  Pt
}

func zkFields(k zkKind, st zkStmt, com []Pt) []zkField {
	switch k {
	case zkDLog:
		return []zkField{{"instance_g", st[0]}, {"instance_h", st[1]}, {"instance_g_x", st[2]}, {"instance_h_x", st[3]}, {"commitment1", com[0]}, {"commitment2", com[1]}}
	case zkEqual:
		return []zkField{{"instance_g", ref.G}, {"instance_h", ref.H}, {"instance_a", st[0]}, {"instance_b", st[1]}, {"commitment", com[0]}}
	}
	return []zkField{{"instance_g", ref.G}, {"instance_h", ref.H}, {"instance_lhs", st[0]}, {"instance_rhs", st[1]}, {"instance_product", st[2]}, {"commitment1", com[0]}, {"commitment2", com[1]}}
}

// zkShape makes a statement of a chosen shape: each secret and each base is zero,
// one, equal to another or random, according to the digits of shape.
func zkShape(c *C, k zkKind, shape int) (zkWit, zkStmt) {
	digit := func(n int) int { d := shape % n; shape /= n; return d }
	val := func() *Int {
		switch digit(3) {
		case 0:
			return bi(0)
		case 1:
			return c.RandScalar()
		}
		return c.Scalar()
	}
	switch k {
	case zkDLog:
		x, base := val(), func() Pt { return []Pt{c.RandPoint(), ref.G, ref.H, ref.Infinity()}[digit(4)] }
		g, h := base(), base()
		if digit(4) == 0 {
			h = g
		}
		return zkWit{x}, zkStmt{g, h, g.Mul(x), h.Mul(x)}
	case zkEqual:
		v, m := val(), val()
		return zkWit{v, m}, zkStmt{ref.Pedersen(v, m), ref.MulG(v)}
	}
	l, rm, pm, r := val(), val(), val(), val()
	if digit(4) == 0 {
		r = l
	}
	p := ref.Mul(l, r)
	return zkWit{l, r, rm, p, pm}, zkStmt{ref.MulG(l), ref.Pedersen(r, rm), ref.Pedersen(p, pm)}
}

// c13weak offers proofs whose challenge comes from an oracle that absorbed
// something else: one field left out, one field in place of another, two swapped,
// or other associated data. A verifier that accepts one does not bind that field;
// the statement shapes include every combination of zero secrets and bases at
// infinity.
func c13weak(c *C) {
	k := zkKind(c.I % 3)
	shape := c.I / 3
	if shape >= 400 || c.Int(4) == 0 {
		shape = c.Int(1 << 20)
	}
	w, st := zkShape(c, k, shape)
	ad := c.ADMax(600)
	lay := layoutOf(c, k)
	if q, err := zkCreate(k, c.Bytes(32), w, st, ad); err == nil {
		c.Check(zkVerify(c, k, st, q, ad) == nil, "honest", "honest %s proof rejected (witness %x)", zkName[k], w)
	} else {
		c.Fail("Create", "%v", err)
	}
	r := nonces(c, k)
	com := zkCommit(k, st, r)
	fs := zkFields(k, st, com)
	hash := func(fs []zkField, a []byte) *Int {
		o := ref.NewRO(zkDst[k]).Bytes("associated_data", a)
		for _, f := range fs {
			o.Point(f.tag, f.pt)
		}
		return o.OutScalars(1)[0]
	}
	good := hash(fs, ad)
	if good.Cmp(zkChallenge(k, zkDst[k], st, com, ad)) != 0 {
		c.Fail("harness", "field list and challenge disagree")
	}
	if err := zkVerify(c, k, st, zkBuild(k, zkProof{good, zkRespond(k, w, good, r)}, lay), ad); err != nil {
		c.Fail("honest", "an independently made %s proof is rejected: %v (witness %x)", zkName[k], err, w)
	}
	inf := ""
	for _, p := range st {
		if p.Inf {
			inf = " (statement with a point at infinity)"
			c.Obs("statements with a point at infinity", 1)
			break
		}
	}
	try := func(what string, ch *Int) {
		if ch.Cmp(good) == 0 {
			return
		}
		q := zkBuild(k, zkProof{ch, zkRespond(k, w, ch, r)}, lay)
		var err error
		c.NoPanic("crash", what, func() { err = zkVerify(c, k, st, q, ad) })
		if err == nil {
			c.Fail("weak-challenge", "%s proof accepted although its challenge is of an oracle with %s%s: witness %x, ad of %d bytes", zkName[k], what, inf, w, len(ad))
		}
		c.Ev("weak", what, ch)
		c.Obs("weak challenges rejected", 1)
	}
	cp := func() []zkField { return append([]zkField{}, fs...) }
	for i := range fs {
		m := append(cp()[:i:i], fs[i+1:]...)
		try(fs[i].tag+" left out", hash(m, ad))
		m = cp()
		m[i].pt = ref.Infinity()
		try(fs[i].tag+" at infinity", hash(m, ad))
		if !fs[i].pt.Inf {
			m = cp()
			m[i].pt = fs[i].pt.Neg()
			try(fs[i].tag+" negated", hash(m, ad))
		}
		for j := range fs {
			if i == j {
				continue
			}
			m = cp()
			m[i].pt = fs[j].pt
			try(fs[j].tag+" in place of "+fs[i].tag, hash(m, ad))
			if i < j {
				m = cp()
				m[i].pt, m[j].pt = fs[j].pt, fs[i].pt
				try(fs[i].tag+" and "+fs[j].tag+" swapped", hash(m, ad))
				m = cp()
				m[i], m[j] = fs[j], fs[i]
				try(fs[i].tag+" and "+fs[j].tag+" absorbed in the other order (same tags)", hash(m, ad))
			}
		}
	}
	var bare []zkField
	bare = append(bare, fs[:len(fs)-len(com)]...)
	try("no commitment", hash(bare, ad))
	try("only the commitments", hash(fs[len(fs)-len(com):], ad))
	for n, a := range adVariants(c, ad) {
		try("other associated data: "+n, hash(fs, a))
	}
	for _, n := range []int{0, 16, 32, 64, 128, 255} {
		if len(ad) > n {
			try(fmt.Sprintf("the first %d bytes of the associated data", n), hash(fs, ad[:n]))
			try(fmt.Sprintf("the last %d bytes of the associated data", n), hash(fs, ad[len(ad)-n:]))
		}
	}
	c.Note("%s shape %d witness %x ad of %d bytes", zkName[k], shape, w, len(ad))
}

func zkProto(k zkKind) interface{} {
	var p interface{}
	one := S(bi(1))
	switch k {
	case zkDLog:
		x, _ := zk.ProofOfDLogEquivalenceIns.Create(seed.FromBytes(make([]byte, 32)), one, P(ref.G), P(ref.H), nil)
		p = x
	case zkEqual:
		x, _ := zk.ProofOfEqualOpeningsIns.Create(seed.FromBytes(make([]byte, 32)), one, one, nil)
		p = x
	default:
		x, _ := zk.ProofOfProductIns.Create(seed.FromBytes(make([]byte, 32)), one, one, one, one, one, nil)
		p = x
	}
	return p
}
