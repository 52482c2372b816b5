package main

import (
	"fmt"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C14", MinEval: 300,
		Rule: "one evaluation compares one decryption (library or independent) with the plaintext, or one refusal; distinct by kind, keys, plaintexts, dealer, associated data and altered parameter",
		Gens: []core.Gen{
			{Name: "roundtrip", Quick: 120, Thorough: 5000, Run: c14roundtrip},
			{Name: "interop", Quick: 90, Thorough: 3000, Run: c14interop},
			{Name: "many", Quick: 3, Thorough: 40, Run: c14many},
			{Name: "indices", Quick: 4, Thorough: 60, Run: c14indices},
			{Name: "long-interop", Quick: 24, Thorough: 600, Run: c14interop},
			{Name: "long-roundtrip", Quick: 24, Thorough: 600, Run: c14roundtrip},
			{Name: "refuse", Quick: 100, Thorough: 2000, Run: c14refuse},
		}})
	core.Register(&core.Prop{ID: "C15", MinEval: 400,
		Rule: "one evaluation offers one altered or replayed ciphertext to validity check, decryption and decrypt-and-check; distinct by alteration and ciphertext",
		Gens: []core.Gen{
			{Name: "altered", Quick: 50, Thorough: 2500, Run: c15altered},
			{Name: "replay", Quick: 60, Thorough: 2500, Run: c15replay},
			{Name: "forged", Quick: 60, Thorough: 2500, Run: c15forged},
			{Name: "long-replay", Quick: 12, Thorough: 400, Run: c15replay},
			{Name: "long-altered", Quick: 8, Thorough: 300, Run: c15altered},
		}})
}

// megaTag names the kind in the documented domain separators.
func megaDst(pair bool, what string) string {
	k := "single"
	if pair {
		k = "pair"
	}
	return "ic-crypto-tecdsa-mega-encryption-" + k + "-" + what
}

// ct is a ciphertext as plain values.
type ct struct {
	pair      bool
	eph, popK Pt
	pop       zkProof
	c         [][]*Int
}

func megaMask(pair bool, dealer, recipient NI, ad []byte, pk, eph, shared Pt) []*Int {
	n := 1
	if pair {
		n = 2
	}
	return ref.NewRO(megaDst(pair, "encrypt")).Int("dealer_index", uint64(dealer)).Int("recipient_index", uint64(uint32(recipient))).
		Bytes("associated_data", ad).Point("public_key", pk).Point("ephemeral_key", eph).Point("shared_secret", shared).OutScalars(n)
}
func megaPopBase(pair bool, dealer NI, ad []byte, eph Pt) Pt {
	return ref.NewRO(megaDst(pair, "pop-base")).Bytes("associated_data", ad).Int("dealer_index", uint64(dealer)).Point("ephemeral_key", eph).OutPoint()
}

// refEncrypt is an independent encryptor.
func refEncrypt(pair bool, beta *Int, nonce *Int, pts [][]*Int, pks []Pt, dealer NI, ad []byte) *ct {
	v := ref.MulG(beta)
	base := megaPopBase(pair, dealer, ad, v)
	k := base.Mul(beta)
	x := &ct{pair: pair, eph: v, popK: k, pop: zkRefProve(zkDLog, zkDst[zkDLog], zkStmt{ref.G, base, v, k}, zkWit{beta}, ad, []*Int{nonce})}
	for i := range pts {
		m := megaMask(pair, dealer, NI(i), ad, pks[i], v, pks[i].Mul(beta))
		row := []*Int{}
		for j := range m {
			row = append(row, ref.Add(pts[i][j], m[j]))
		}
		x.c = append(x.c, row)
	}
	return x
}

// refPopOK decides the proof of possession independently.
func refPopOK(x *ct, dealer NI, ad []byte) bool {
	return zkRefVerify(zkDLog, zkStmt{ref.G, megaPopBase(x.pair, dealer, ad, x.eph), x.eph, x.popK}, x.pop, ad)
}

// refDecrypt is an independent decryptor.
func refDecrypt(x *ct, dealer, recipient NI, ad []byte, sk *Int, pk Pt) []*Int {
	m := megaMask(x.pair, dealer, recipient, ad, pk, x.eph, x.eph.Mul(sk))
	out := []*Int{}
	for j := range m {
		out = append(out, ref.Sub(x.c[recipient][j], m[j]))
	}
	return out
}

// toLib / fromLib convert to and from the library's ciphertexts.
func toLib(x *ct, lay []int) mega.MEGaCiphertext {
	p := zkBuild(zkDLog, x.pop, lay).(*zk.ProofOfDLogEquivalence)
	if !x.pair {
		var cs []curve.EccScalar
		for _, r := range x.c {
			cs = append(cs, S(r[0]))
		}
		return &mega.MEGaCiphertextSingle{EphemeralKey: P(x.eph), PopPublicKey: P(x.popK), PopProof: p, CTexts: cs}
	}
	var cs [][2]curve.EccScalar
	for _, r := range x.c {
		cs = append(cs, [2]curve.EccScalar{S(r[0]), S(r[1])})
	}
	return &mega.MEGaCiphertextPair{EphemeralKey: P(x.eph), PopPublicKey: P(x.popK), PopProof: p, CTexts: cs}
}
func fromLib(m mega.MEGaCiphertext, lay []int) *ct {
	x := &ct{eph: pv(m.Ephemeral()), popK: pv(m.PopPublic()), pop: zkValues(svs(insp.Scalars(m.Proof())), lay)}
	switch y := m.(type) {
	case *mega.MEGaCiphertextSingle:
		for _, s := range y.CTexts {
			x.c = append(x.c, []*Int{sv(s)})
		}
	case *mega.MEGaCiphertextPair:
		x.pair = true
		for _, s := range y.CTexts {
			x.c = append(x.c, []*Int{sv(s[0]), sv(s[1])})
		}
	}
	return x
}

// megaCase is one encryption set-up.
type megaCase struct {
	pair   bool
	sks    []*Int
	pks    []Pt
	pts    [][]*Int
	dealer NI
	ad     []byte
	sd     []byte
}

func genMega(c *C, n int) *megaCase {
	m := &megaCase{pair: c.Bool(), dealer: NI(c.WideIndex()), ad: c.ADMax(5000), sd: c.Bytes(32)}
	for i := 0; i < n; i++ {
		sk := c.RandScalar()
		if c.Int(8) == 0 {
			sk = c.Scalar()
		}
		if i > 0 && c.Int(12) == 0 {
			sk = m.sks[0] // a key registered twice
		}
		m.sks, m.pks = append(m.sks, sk), append(m.pks, ref.MulG(sk))
		m.pts = append(m.pts, []*Int{c.Scalar(), c.Scalar()})
	}
	return m
}
func (m *megaCase) libKeys() []*mega.MEGaPublicKey {
	out := make([]*mega.MEGaPublicKey, len(m.pks))
	for i := range out {
		out[i] = mega.NewMEGaPublicKey(P(m.pks[i]))
	}
	return out
}
func (m *megaCase) encrypt() (mega.MEGaCiphertext, error) {
	if !m.pair {
		s := make([]curve.EccScalar, len(m.pts))
		for i := range s {
			s[i] = S(m.pts[i][0])
		}
		x, err := mega.EncryptCiphertextSingle(seed.FromBytes(m.sd), s, m.libKeys(), m.dealer, m.ad)
		if err != nil {
			return nil, err
		}
		return x, nil
	}
	s := make([][2]curve.EccScalar, len(m.pts))
	for i := range s {
		s[i] = [2]curve.EccScalar{S(m.pts[i][0]), S(m.pts[i][1])}
	}
	x, err := mega.EncryptCiphertextPair(seed.FromBytes(m.sd), s, m.libKeys(), m.dealer, m.ad)
	if err != nil {
		return nil, err
	}
	return x, nil
}

// libDecrypt decrypts with the library; values of a single ciphertext have one entry.
func libDecrypt(m mega.MEGaCiphertext, ad []byte, dealer, recipient NI, sk *Int, pk Pt) ([]*Int, error) {
	k, q := mega.NewMEGaPrivateKey(S(sk)), mega.NewMEGaPublicKey(P(pk))
	switch x := m.(type) {
	case *mega.MEGaCiphertextSingle:
		s, err := x.Decrypt(ad, dealer, recipient, k, q)
		if err != nil {
			return nil, err
		}
		return []*Int{sv(s)}, nil
	case *mega.MEGaCiphertextPair:
		s, err := x.Decrypt(ad, dealer, recipient, k, q)
		if err != nil {
			return nil, err
		}
		return []*Int{sv(s[0]), sv(s[1])}, nil
	}
	panic("unknown ciphertext")
}
func libFromShared(m mega.MEGaCiphertext, ad []byte, dealer, recipient NI, pk, shared Pt) ([]*Int, error) {
	q := mega.NewMEGaPublicKey(P(pk))
	switch x := m.(type) {
	case *mega.MEGaCiphertextSingle:
		s, err := x.DecryptFromSharedSecret(ad, dealer, recipient, q, P(shared))
		if err != nil {
			return nil, err
		}
		return []*Int{sv(s)}, nil
	case *mega.MEGaCiphertextPair:
		s, err := x.DecryptFromSharedSecret(ad, dealer, recipient, q, P(shared))
		if err != nil {
			return nil, err
		}
		return []*Int{sv(s[0]), sv(s[1])}, nil
	}
	panic("unknown ciphertext")
}
func (m *megaCase) want(i int) []*Int {
	if m.pair {
		return m.pts[i]
	}
	return m.pts[i][:1]
}
func sameInts(a, b []*Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}
func (m *megaCase) id() string {
	return fmt.Sprintf("%v/%x/%x/%d/%x/%x", m.pair, m.sks, m.pts, m.dealer, sha(m.ad, 64), m.sd)
}
func (m *megaCase) kindName() string {
	if m.pair {
		return "pair"
	}
	return "single"
}

func c14roundtrip(c *C) {
	m := genMega(c, 1+c.Int(5))
	x, err := m.encrypt()
	if err != nil {
		c.Fail("Encrypt", "%s encryption for %d recipients refused: %v", m.kindName(), len(m.pks), err)
	}
	c14check(c, m, x, true)
	c.Note("%s, %d recipients, dealer %d, %d bytes of associated data", m.kindName(), len(m.pks), m.dealer, len(m.ad))
}

func c14check(c *C, m *megaCase, x mega.MEGaCiphertext, all bool) {
	n := len(m.pks)
	c.Check(x.Recipients() == n, "Recipients", "%d recipients for %d plaintexts", x.Recipients(), n)
	ctype := map[bool]mega.MEGaCiphertextType{false: mega.CiphertextSingle, true: mega.CiphertextPairs}
	c.Check(x.CType() == ctype[m.pair], "CType", "wrong type")
	c.Check(x.VerifyIs(ctype[m.pair], K) == nil && x.VerifyIs(ctype[!m.pair], K) != nil && x.VerifyIs(ctype[m.pair], curve.EccCurveType(2)) != nil, "VerifyIs", "VerifyIs wrong on a %s ciphertext", m.kindName())
	c.Check(x.CheckValidity(n, m.ad, m.dealer) == nil, "CheckValidity", "honest ciphertext rejected")
	c.Check(x.CheckValidity(n-1, m.ad, m.dealer) != nil && x.CheckValidity(n+1, m.ad, m.dealer) != nil, "CheckValidity", "wrong number of recipients accepted")
	lay := layoutOf(c, zkDLog)
	rc := fromLib(x, lay)
	c.Check(refPopOK(rc, m.dealer, m.ad), "pop", "the proof of possession is rejected by an independent verifier (dealer %d, %d bytes of associated data)", m.dealer, len(m.ad))
	for i := 0; i < n; i++ {
		if !all && i%17 != 0 && i != n-1 && i != 255 && i != 256 {
			continue
		}
		r := NI(i)
		w := m.want(i)
		g, err := libDecrypt(x, m.ad, m.dealer, r, m.sks[i], m.pks[i])
		if err != nil || !sameInts(g, w) {
			c.Fail("Decrypt", "recipient %d of %d (%s, dealer %d) decrypts %x want %x (%v)", i, n, m.kindName(), m.dealer, g, w, err)
		}
		if d := refDecrypt(rc, m.dealer, r, m.ad, m.sks[i], m.pks[i]); !sameInts(d, w) {
			c.Fail("mask", "an independent decryptor gets %x for recipient %d of %d (%s, dealer %d, %d bytes of associated data), plaintext %x", d, i, n, m.kindName(), m.dealer, len(m.ad), w)
		}
		g, err = libFromShared(x, m.ad, m.dealer, r, m.pks[i], rc.eph.Mul(m.sks[i]))
		c.Check(err == nil && sameInts(g, w), "DecryptFromSharedSecret", "recipient %d: %x want %x (%v)", i, g, w, err)
		c.Ev("decrypt", m.id(), i)
	}
	// single-parameter changes never give the plaintext
	i := c.Int(n)
	r, w := NI(i), m.want(i)
	wrong := func(what string, ad []byte, dealer, rec NI, sk *Int, pk Pt) {
		var g []*Int
		var err error
		c.NoPanic("Decrypt-crash", what, func() { g, err = libDecrypt(x, ad, dealer, rec, sk, pk) })
		if err == nil {
			for j := range w {
				c.Check(g[j].Cmp(w[j]) != 0, "context", "plaintext of recipient %d obtained with %s", i, what)
			}
		}
		c.Ev(what, m.id(), i)
		c.Obs("withheld with "+what, 1)
	}
	wrong("another secret key", m.ad, m.dealer, r, ref.Add(m.sks[i], bi(1)), m.pks[i])
	wrong("another public key", m.ad, m.dealer, r, m.sks[i], m.pks[i].Add(ref.G))
	wrong("another dealer index", m.ad, m.dealer+1, r, m.sks[i], m.pks[i])
	wrong("a dealer index that differs in one bit", m.ad, m.dealer^NI(1)<<uint(c.Int(63)), r, m.sks[i], m.pks[i])
	wrong("a dealer index that differs in bit 32", m.ad, m.dealer^1<<32, r, m.sks[i], m.pks[i])
	wrong("other associated data", mutAD(c, m.ad), m.dealer, r, m.sks[i], m.pks[i])
	j := (i + 1) % n
	// with the same keys this is the honest decryption for j, whose plaintext may agree in a part
	own := m.sks[i].Cmp(m.sks[j]) == 0
	for k, x := range m.want(j) {
		own = own && x.Cmp(w[k]) != 0
	}
	if j != i && (own || m.sks[i].Cmp(m.sks[j]) != 0) {
		wrong("another recipient index", m.ad, m.dealer, NI(j), m.sks[i], m.pks[i])
	}
	if m.sks[j].Cmp(m.sks[i]) != 0 {
		wrong("another recipient's keys", m.ad, m.dealer, r, m.sks[j], m.pks[j])
	}
	sh := rc.eph.Mul(m.sks[i])
	for what, g := range map[string]func() ([]*Int, error){
		"shared secret and other associated data": func() ([]*Int, error) { return libFromShared(x, mutAD(c, m.ad), m.dealer, r, m.pks[i], sh) },
		"shared secret and another dealer":        func() ([]*Int, error) { return libFromShared(x, m.ad, m.dealer+1, r, m.pks[i], sh) },
		"shared secret and one bit of the dealer": func() ([]*Int, error) {
			return libFromShared(x, m.ad, m.dealer^NI(1)<<uint(c.Int(63)), r, m.pks[i], sh)
		},
		"shared secret and another public key": func() ([]*Int, error) { return libFromShared(x, m.ad, m.dealer, r, m.pks[i].Add(ref.G), sh) },
		"another shared secret":                func() ([]*Int, error) { return libFromShared(x, m.ad, m.dealer, r, m.pks[i], sh.Add(ref.G)) },
	} {
		v, err := g()
		c.Check(err != nil || v[0].Cmp(w[0]) != 0, "context", "plaintext obtained with %s", what)
		c.Ev(what, m.id(), i)
	}
	// recipient indices out of range
	for _, bad := range []NI{NI(n), NI(n + 1), NI(n + 256), NI(1) << 32, -1, -1 << 40} {
		var err, err2, err3 error
		c.NoPanic("index-crash", fmt.Sprintf("recipient index %d of %d", bad, n), func() {
			_, err = libDecrypt(x, m.ad, m.dealer, bad, m.sks[i], m.pks[i])
			_, err2 = libFromShared(x, m.ad, m.dealer, bad, m.pks[i], sh)
			cm := poly.PedersenCM.New([]curve.EccPoint{P(ref.G)})
			_, err3 = x.DecryptAndCheck(cm, m.ad, m.dealer, bad, mega.NewMEGaPrivateKey(S(m.sks[i])), mega.NewMEGaPublicKey(P(m.pks[i])))
		})
		c.Check(err != nil && err2 != nil && err3 != nil, "index", "recipient index %d of %d accepted", bad, n)
		c.Ev("index", m.id(), int(bad))
	}
}

func c14interop(c *C) {
	m := genMega(c, 1+c.Int(4))
	lay := layoutOf(c, zkDLog)
	pts := m.pts
	if !m.pair {
		pts = nil
		for _, p := range m.pts {
			pts = append(pts, p[:1])
		}
	}
	beta := c.RandScalar()
	if c.Int(10) == 0 {
		beta = c.Scalar()
	}
	x := toLib(refEncrypt(m.pair, beta, c.RandScalar(), pts, m.pks, m.dealer, m.ad), lay)
	if err := x.CheckValidity(len(m.pks), m.ad, m.dealer); err != nil {
		c.Fail("interop", "an independently made %s ciphertext (dealer %d, %d bytes of associated data) is rejected: %v", m.kindName(), m.dealer, len(m.ad), err)
	}
	for i := range m.pks {
		g, err := libDecrypt(x, m.ad, m.dealer, NI(i), m.sks[i], m.pks[i])
		if err != nil || !sameInts(g, m.want(i)) {
			c.Fail("interop", "recipient %d of an independently made %s ciphertext decrypts %x want %x (%v)", i, m.kindName(), g, m.want(i), err)
		}
		c.Ev(m.id(), beta, i)
	}
	// decrypt-and-check decides by the commitment
	i := c.Int(len(m.pks))
	v, w := m.pts[i][0], m.pts[i][1]
	mk := func(v, w *Int) poly.PolynomialCommitment { // constant commitment: same value everywhere
		if m.pair {
			return poly.PedersenCM.New([]curve.EccPoint{P(ref.Pedersen(v, w))})
		}
		return poly.SimpleCM.New([]curve.EccPoint{P(ref.MulG(v))})
	}
	sk, pk := mega.NewMEGaPrivateKey(S(m.sks[i])), mega.NewMEGaPublicKey(P(m.pks[i]))
	o, err := x.DecryptAndCheck(mk(v, w), m.ad, m.dealer, NI(i), sk, pk)
	c.Check(err == nil, "DecryptAndCheck", "matching commitment rejected: %v", err)
	gv, gw, ok := openingValues(o)
	c.Check(ok && gv.Cmp(v) == 0 && (!m.pair || gw.Cmp(w) == 0), "DecryptAndCheck", "wrong opening")
	o, err = x.DecryptAndCheck(mk(ref.Add(v, bi(1)), w), m.ad, m.dealer, NI(i), sk, pk)
	c.Check(err != nil && o == nil, "DecryptAndCheck", "commitment to another value accepted")
	other := poly.PolynomialCommitment(poly.PedersenCM.New([]curve.EccPoint{P(ref.MulG(v))}))
	if m.pair {
		o, err = x.DecryptAndCheck(mk(v, ref.Add(w, bi(1))), m.ad, m.dealer, NI(i), sk, pk)
		c.Check(err != nil && o == nil, "DecryptAndCheck", "commitment to another mask accepted")
		other = poly.SimpleCM.New([]curve.EccPoint{P(ref.MulG(v))})
	}
	c.NoPanic("DecryptAndCheck-crash", "commitment of the other kind", func() { o, err = x.DecryptAndCheck(other, m.ad, m.dealer, NI(i), sk, pk) })
	c.Check(err != nil && o == nil, "DecryptAndCheck", "commitment of the other kind accepted")
	c.Ev("check", m.id())
	c.Obs("independent "+m.kindName()+" ciphertexts", 1)
	c.Note("%s, %d recipients, dealer %d", m.kindName(), len(m.pks), m.dealer)
}

func c14many(c *C) {
	n := []int{40, 257, 300, 64, 513}[c.I%5]
	if c.Thorough() && c.Int(4) == 0 {
		n = 260 + c.Int(500)
	}
	m := genMega(c, n)
	x, err := m.encrypt()
	if err != nil {
		c.Fail("Encrypt", "%d recipients refused: %v", n, err)
	}
	c14check(c, m, x, false)
	c.Obs("recipient lists over 256", 1)
	c.Note("%d recipients", n)
}

// c14indices: a ciphertext for more recipients than 16 bits count (its
// ciphertext list is extended by an independent encryptor at chosen positions);
// every index has its own mask.
func c14indices(c *C) {
	m := genMega(c, 3)
	m.pair = c.I%2 == 1
	pts := m.pts
	if !m.pair {
		pts = nil
		for _, p := range m.pts {
			pts = append(pts, p[:1])
		}
	}
	beta := c.RandScalar()
	x := refEncrypt(m.pair, beta, c.RandScalar(), pts, m.pks, m.dealer, m.ad)
	size := 65536 + 3 + c.Int(70000)
	if c.Thorough() && c.Int(3) == 0 {
		size = 1<<17 + c.Int(1<<18)
	}
	fill := x.c[0]
	for len(x.c) < size {
		x.c = append(x.c, fill)
	}
	probe := []int{0, 1, 255, 256, 257, 511, 4095, 32767, 32768, 65535, 65536, 65537, 65538, size - 1}
	for i := 0; i < 6; i++ {
		probe = append(probe, c.Int(size))
	}
	sk, pk := m.sks[0], m.pks[0]
	want := map[int][]*Int{}
	for _, i := range probe {
		v := []*Int{c.Scalar(), c.Scalar()}
		if !m.pair {
			v = v[:1]
		}
		mask := megaMask(m.pair, m.dealer, NI(i), m.ad, pk, x.eph, pk.Mul(beta))
		row := []*Int{}
		for j := range v {
			row = append(row, ref.Add(v[j], mask[j]))
		}
		x.c[i], want[i] = row, v
	}
	lib := toLib(x, layoutOf(c, zkDLog))
	c.Check(lib.CheckValidity(size, m.ad, m.dealer) == nil, "CheckValidity", "ciphertext for %d recipients rejected", size)
	for _, i := range probe {
		g, err := libDecrypt(lib, m.ad, m.dealer, NI(i), sk, pk)
		if err != nil || !sameInts(g, want[i]) {
			c.Fail("index-mask", "recipient %d of %d (%s) decrypts %x want %x (%v)", i, size, m.kindName(), g, want[i], err)
		}
		g, err = libFromShared(lib, m.ad, m.dealer, NI(i), pk, pk.Mul(beta))
		if err != nil || !sameInts(g, want[i]) {
			c.Fail("index-mask", "recipient %d of %d (%s), with the shared secret: %x want %x (%v)", i, size, m.kindName(), g, want[i], err)
		}
		c.Ev("wide index", m.id(), i)
	}
	var err error
	for _, bad := range []NI{NI(size), NI(size) + 1<<16, NI(size-1) + 1<<32, -1} {
		c.NoPanic("index-crash", fmt.Sprintf("recipient index %d of %d", bad, size), func() { _, err = libDecrypt(lib, m.ad, m.dealer, bad, sk, pk) })
		c.Check(err != nil, "index", "recipient index %d of %d accepted", bad, size)
	}
	c.Obs("recipient lists over 65536", 1)
	c.Note("%d recipients", size)
}

func c14refuse(c *C) {
	n := 1 + c.Int(5)
	m := genMega(c, n)
	k := c.Int(n + 3)
	if k == n {
		k = n + 1
	}
	pts := make([][2]curve.EccScalar, k)
	ss := make([]curve.EccScalar, k)
	for i := range pts {
		pts[i] = [2]curve.EccScalar{S(c.Scalar()), S(c.Scalar())}
		ss[i] = pts[i][0]
	}
	var e1, e2 error
	c.NoPanic("lengths", fmt.Sprintf("%d plaintexts for %d recipients", k, n), func() {
		_, e1 = mega.EncryptCiphertextPair(seed.FromBytes(m.sd), pts, m.libKeys(), m.dealer, m.ad)
		_, e2 = mega.EncryptCiphertextSingle(seed.FromBytes(m.sd), ss, m.libKeys(), m.dealer, m.ad)
	})
	c.Check(e1 != nil && e2 != nil, "lengths", "%d plaintexts for %d recipients accepted", k, n)
	c.NoPanic("lengths", "empty lists", func() {
		_, e1 = mega.EncryptCiphertextPair(seed.FromBytes(m.sd), nil, nil, m.dealer, m.ad)
		_, e2 = mega.EncryptCiphertextSingle(seed.FromBytes(m.sd), []curve.EccScalar{}, []*mega.MEGaPublicKey{}, m.dealer, m.ad)
	})
	c.Check(e1 != nil && e2 != nil, "lengths", "empty lists accepted")
	c.Ev("refuse", k, n, m.id())
}

// ---------- C15 ----------

// c15reject offers an altered ciphertext everywhere it could be accepted.
func c15reject(c *C, what string, x mega.MEGaCiphertext, n int, ad []byte, dealer NI, m *megaCase, i int) {
	c.NoPanic("crash", what, func() {
		if x.CheckValidity(n, ad, dealer) == nil {
			c.Fail("CheckValidity", "accepts a %s ciphertext with %s", m.kindName(), what)
		}
		if _, err := libDecrypt(x, ad, dealer, NI(i), m.sks[i], m.pks[i]); err == nil {
			c.Fail("Decrypt", "decrypts a %s ciphertext with %s", m.kindName(), what)
		}
		cm := poly.PolynomialCommitment(poly.SimpleCM.New([]curve.EccPoint{P(ref.MulG(m.pts[i][0]))}))
		if x.CType() == mega.CiphertextPairs {
			cm = poly.PedersenCM.New([]curve.EccPoint{P(ref.Pedersen(m.pts[i][0], m.pts[i][1]))})
		}
		// decrypting with the altered ephemeral key may or may not give the
		// committed value; the proof of possession alone must already reject
		if o, err := x.DecryptAndCheck(cm, ad, dealer, NI(i), mega.NewMEGaPrivateKey(S(m.sks[i])), mega.NewMEGaPublicKey(P(m.pks[i]))); err == nil || o != nil {
			c.Fail("DecryptAndCheck", "opens a %s ciphertext with %s", m.kindName(), what)
		}
	})
	c.Ev(what, m.id(), i)
	c.Obs("rejected: "+what, 1)
}

func c15altered(c *C) {
	m := genMega(c, 1+c.Int(3))
	x, err := m.encrypt()
	c.Check(err == nil, "Encrypt", "%v", err)
	lay := layoutOf(c, zkDLog)
	n, i := len(m.pks), c.Int(len(m.pks))
	c.Check(x.CheckValidity(n, m.ad, m.dealer) == nil, "CheckValidity", "honest ciphertext rejected")
	c.Check(x.CheckValidity(n+1, m.ad, m.dealer) != nil && x.CheckValidity(n-1, m.ad, m.dealer) != nil && x.CheckValidity(0, m.ad, m.dealer) != nil, "CheckValidity", "wrong recipient count accepted")
	v := fromLib(x, lay)
	alt := func(what string, f func(y *ct)) {
		y := *v
		y.pop.resp = append([]*Int{}, v.pop.resp...)
		f(&y)
		c15reject(c, what, toLib(&y, lay), n, m.ad, m.dealer, m, i)
	}
	d := ref.MulG(c.RandScalar())
	alt("another ephemeral key", func(y *ct) { y.eph = y.eph.Add(d) })
	alt("ephemeral key negated", func(y *ct) { y.eph = y.eph.Neg() })
	alt("ephemeral key at infinity", func(y *ct) { y.eph = ref.Infinity() })
	alt("another proof key", func(y *ct) { y.popK = y.popK.Add(d) })
	alt("proof key negated", func(y *ct) { y.popK = y.popK.Neg() })
	alt("ephemeral and proof key negated", func(y *ct) { y.eph, y.popK = y.eph.Neg(), y.popK.Neg() })
	for _, u := range units[1:] {
		u := u
		alt("ephemeral key "+u.name, func(y *ct) { y.eph = y.eph.Mul(u.f) })
		alt("proof key "+u.name, func(y *ct) { y.popK = y.popK.Mul(u.f) })
		alt("ephemeral and proof key "+u.name, func(y *ct) { y.eph, y.popK = y.eph.Mul(u.f), y.popK.Mul(u.f) })
		alt("proof scalars "+u.name, func(y *ct) { y.pop = zkProof{ref.Mul(y.pop.ch, u.f), []*Int{ref.Mul(y.pop.resp[0], u.f)}} })
	}
	alt("ephemeral and proof key swapped", func(y *ct) { y.eph, y.popK = y.popK, y.eph })
	alt("both keys at infinity", func(y *ct) { y.eph, y.popK = ref.Infinity(), ref.Infinity() })
	alt("challenge changed", func(y *ct) { y.pop.ch = ref.Add(y.pop.ch, bi(1)) })
	alt("response changed", func(y *ct) { y.pop.resp[0] = ref.Add(y.pop.resp[0], bi(1)) })
	alt("zero proof", func(y *ct) { y.pop = zkProof{bi(0), []*Int{bi(0)}} })
	alt("challenge and response swapped", func(y *ct) { y.pop = zkProof{y.pop.resp[0], []*Int{y.pop.ch}} })
	alt("everything doubled", func(y *ct) {
		y.eph, y.popK = y.eph.Add(y.eph), y.popK.Add(y.popK)
	})
	for what, a := range adVariants(c, m.ad) {
		c15reject(c, "associated data "+what, x, n, a, m.dealer, m, i)
	}
	for _, dl := range []NI{m.dealer + 1, m.dealer ^ 256, m.dealer ^ (1 << 31), m.dealer ^ 0x10000, m.dealer ^ (1 << 32), m.dealer ^ NI(1)<<uint(c.Int(63))} {
		c15reject(c, "another dealer index", x, n, m.ad, dl, m, i)
	}
	// the same values presented as the other kind
	y := *v
	y.pair = !v.pair
	y.c = nil
	for _, r := range v.c {
		if v.pair {
			y.c = append(y.c, r[:1])
		} else {
			y.c = append(y.c, []*Int{r[0], r[0]})
		}
	}
	c15reject(c, "the other encryption kind", toLib(&y, lay), n, m.ad, m.dealer, m, i)
	c.Note("%s dealer %d ad %d bytes", m.kindName(), m.dealer, len(m.ad))
}

func c15replay(c *C) {
	m := genMega(c, 1+c.Int(3))
	o := *m
	o.sd = c.Bytes(32)
	what := []string{"another ciphertext", "another dealer", "other associated data", "the other kind"}[c.Int(4)]
	switch what {
	case "another dealer":
		o.dealer = NI(c.WideIndex())
		if o.dealer == m.dealer {
			o.dealer++
		}
	case "other associated data":
		o.ad = mutAD(c, m.ad)
	case "the other kind":
		o.pair = !m.pair
	}
	if what != "another ciphertext" && c.Bool() {
		o.sd = m.sd // the same ephemeral key where the context does not enter it
	}
	x, err := m.encrypt()
	c.Check(err == nil, "Encrypt", "%v", err)
	y, err := o.encrypt()
	c.Check(err == nil, "Encrypt", "%v", err)
	lay := layoutOf(c, zkDLog)
	vx, vy := fromLib(x, lay), fromLib(y, lay)
	n, i := len(m.pks), c.Int(len(m.pks))
	alt := func(part string, f func(z *ct)) {
		z := *vx
		f(&z)
		c15reject(c, part+" from "+what, toLib(&z, lay), n, m.ad, m.dealer, m, i)
	}
	alt("proof", func(z *ct) { z.pop = vy.pop })
	alt("proof and proof key", func(z *ct) { z.pop, z.popK = vy.pop, vy.popK })
	if what != "another ciphertext" {
		alt("proof, proof key and ephemeral key", func(z *ct) { z.pop, z.popK, z.eph = vy.pop, vy.popK, vy.eph })
	}
	alt("challenge", func(z *ct) { z.pop.ch = vy.pop.ch })
	alt("response", func(z *ct) { z.pop.resp = vy.pop.resp })
	if !vx.eph.Equal(vy.eph) {
		alt("ephemeral key", func(z *ct) { z.eph = vy.eph })
	}
	if !vx.popK.Equal(vy.popK) {
		alt("proof key", func(z *ct) { z.popK = vy.popK })
	}
	c.Note("replay from %s", what)
}

// c15forged: proofs by someone who does not know the discrete logarithm, or
// whose proof key uses another base or another exponent.
func c15forged(c *C) {
	m := genMega(c, 1+c.Int(2))
	lay := layoutOf(c, zkDLog)
	n, i := len(m.pks), c.Int(len(m.pks))
	beta := c.RandScalar()
	pts := m.pts
	if !m.pair {
		pts = [][]*Int{}
		for _, p := range m.pts {
			pts = append(pts, p[:1])
		}
	}
	good := refEncrypt(m.pair, beta, c.RandScalar(), pts, m.pks, m.dealer, m.ad)
	base := megaPopBase(m.pair, m.dealer, m.ad, good.eph)
	offer := func(what string, f func(z *ct)) {
		z := *good
		f(&z)
		c15reject(c, what, toLib(&z, lay), n, m.ad, m.dealer, m, i)
	}
	prove := func(dst string, st zkStmt, x *Int, ad []byte) zkProof {
		return zkRefProve(zkDLog, dst, st, zkWit{x}, ad, []*Int{c.RandScalar()})
	}
	b2 := ref.Add(beta, bi(1))
	offer("proof key of another exponent", func(z *ct) {
		z.popK = base.Mul(b2)
		z.pop = prove(zkDst[0], zkStmt{ref.G, base, z.eph, z.popK}, beta, m.ad)
	})
	offer("proof for another exponent", func(z *ct) {
		z.pop = prove(zkDst[0], zkStmt{ref.G, base, ref.MulG(b2), base.Mul(b2)}, b2, m.ad)
	})
	for what, bs := range map[string]Pt{
		"base of the other kind":          megaPopBase(!m.pair, m.dealer, m.ad, good.eph),
		"base of another dealer":          megaPopBase(m.pair, m.dealer+1, m.ad, good.eph),
		"base of other associated data":   megaPopBase(m.pair, m.dealer, mutAD(c, m.ad), good.eph),
		"base of another ephemeral key":   megaPopBase(m.pair, m.dealer, m.ad, good.eph.Add(ref.G)),
		"the generator as base":           ref.G,
		"the second generator as base":    ref.H,
		"a base whose logarithm is known": ref.MulG(c.RandScalar()),
	} {
		bs := bs
		offer("proof over "+what, func(z *ct) {
			z.popK = bs.Mul(beta)
			z.pop = prove(zkDst[0], zkStmt{ref.G, bs, z.eph, z.popK}, beta, m.ad)
		})
	}
	offer("proof without associated data", func(z *ct) {
		if len(m.ad) == 0 {
			z.pop = prove(zkDst[0], zkStmt{ref.G, base, z.eph, z.popK}, beta, []byte{0})
		} else {
			z.pop = prove(zkDst[0], zkStmt{ref.G, base, z.eph, z.popK}, beta, nil)
		}
	})
	offer("simulated proof", func(z *ct) { z.pop = zkProof{c.RandScalar(), []*Int{c.RandScalar()}} })
	// the attacker reuses another party's ephemeral key without knowing its logarithm
	offer("stolen ephemeral key", func(z *ct) {
		z.eph = z.eph.Add(ref.MulG(c.RandScalar()))
		bs := megaPopBase(m.pair, m.dealer, m.ad, z.eph)
		z.popK = bs.Mul(beta)
		z.pop = prove(zkDst[0], zkStmt{ref.G, bs, z.eph, z.popK}, beta, m.ad)
	})
	c.Note("%s dealer %d", m.kindName(), m.dealer)
}
