// Package ref is an independent reference model of the mathematics and of the
// published formats the library implements.  It uses math/big, crypto/* and
// (for speed of point multiplication) btcec; nothing from the code under test.
package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"sort"

	"github.com/btcsuite/btcd/btcec"
)

var (
	N = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	// Lambda is a cube root of one modulo N: Lambda*(x, y) = (beta*x, y)
	Lambda = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	P      = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	Half   = new(big.Int).Rsh(N, 1) // (n-1)/2
	zero   = big.NewInt(0)
	one    = big.NewInt(1)
	G      = Point{X: hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), Y: hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	H      = MustDecompress("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59")
)

func hexInt(s string) *big.Int { r, _ := new(big.Int).SetString(s, 16); return r }

// ---- scalars ----
func Mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, N) }
func Add(a, b *big.Int) *big.Int { return Mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return Mod(new(big.Int).Sub(a, b)) }
func Mul(a, b *big.Int) *big.Int { return Mod(new(big.Int).Mul(a, b)) }
func Neg(a *big.Int) *big.Int    { return Mod(new(big.Int).Neg(a)) }
func Inv(a *big.Int) *big.Int {
	if Mod(a).Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, N)
}
func Bytes32(a *big.Int) []byte {
	b := a.Bytes()
	out := make([]byte, 32)
	copy(out[32-len(b):], b)
	return out
}

// ---- field ----
func FMod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P) }
func FAdd(a, b *big.Int) *big.Int { return FMod(new(big.Int).Add(a, b)) }
func FSub(a, b *big.Int) *big.Int { return FMod(new(big.Int).Sub(a, b)) }
func FMul(a, b *big.Int) *big.Int { return FMod(new(big.Int).Mul(a, b)) }
func FNeg(a *big.Int) *big.Int    { return FMod(new(big.Int).Neg(a)) }
func FInv(a *big.Int) *big.Int {
	if FMod(a).Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, P)
}
func FIsSquare(a *big.Int) bool {
	if a.Sign() == 0 {
		return true
	}
	e := new(big.Int).Rsh(new(big.Int).Sub(P, one), 1)
	return new(big.Int).Exp(a, e, P).Cmp(one) == 0
}

// FSqrt returns a root or nil.
func FSqrt(a *big.Int) *big.Int {
	e := new(big.Int).Rsh(new(big.Int).Add(P, one), 2)
	r := new(big.Int).Exp(a, e, P)
	if FMul(r, r).Cmp(FMod(a)) != 0 {
		return nil
	}
	return r
}

// ---- points ----
type Point struct {
	X, Y *big.Int
	Inf  bool
}

func Infinity() Point { return Point{X: new(big.Int), Y: new(big.Int), Inf: true} }
func OnCurve(x, y *big.Int) bool {
	l := FMul(y, y)
	r := FAdd(FMul(FMul(x, x), x), big.NewInt(7))
	return l.Cmp(r) == 0
}
func (p Point) Equal(q Point) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}
func (p Point) Neg() Point {
	if p.Inf {
		return p
	}
	return Point{X: p.X, Y: FNeg(p.Y)}
}

// Add is the textbook affine group law.
func (p Point) Add(q Point) Point {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		if p.Y.Cmp(q.Y) != 0 || p.Y.Sign() == 0 {
			return Infinity()
		}
		l = FMul(FMul(big.NewInt(3), FMul(p.X, p.X)), FInv(FAdd(p.Y, p.Y)))
	} else {
		l = FMul(FSub(q.Y, p.Y), FInv(FSub(q.X, p.X)))
	}
	x := FSub(FSub(FMul(l, l), p.X), q.X)
	y := FSub(FMul(l, FSub(p.X, x)), p.Y)
	return Point{X: x, Y: y}
}
func (p Point) Sub(q Point) Point { return p.Add(q.Neg()) }

// MulSlow is double-and-add over the affine law (used by the self test).
func (p Point) MulSlow(k *big.Int) Point {
	r := Infinity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

// Mul multiplies by k mod n using btcec.
func (p Point) Mul(k *big.Int) Point {
	kk := Mod(k)
	if p.Inf || kk.Sign() == 0 {
		return Infinity()
	}
	var x, y *big.Int
	if p.X.Cmp(G.X) == 0 && p.Y.Cmp(G.Y) == 0 {
		x, y = btcec.S256().ScalarBaseMult(Bytes32(kk))
	} else {
		x, y = btcec.S256().ScalarMult(p.X, p.Y, Bytes32(kk))
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return Infinity()
	}
	return Point{X: x, Y: y}
}
func MulG(k *big.Int) Point        { return G.Mul(k) }
func Pedersen(s, m *big.Int) Point { return G.Mul(s).Add(H.Mul(m)) }

func (p Point) Compressed() []byte {
	out := make([]byte, 33)
	if p.Inf {
		return out
	}
	out[0] = byte(2 + p.Y.Bit(0))
	copy(out[1:], Bytes32(p.X))
	return out
}
func (p Point) Tagged() []byte { return append([]byte{1}, p.Compressed()...) }
func (p Point) Uncompressed() []byte {
	out := []byte{4}
	out = append(out, Bytes32(p.X)...)
	return append(out, Bytes32(p.Y)...)
}

// Decompress returns the point with the given x and parity, or ok=false.
func Decompress(x *big.Int, odd uint) (Point, bool) {
	if x.Cmp(P) >= 0 {
		return Point{}, false
	}
	y := FSqrt(FAdd(FMul(FMul(x, x), x), big.NewInt(7)))
	if y == nil {
		return Point{}, false
	}
	if y.Bit(0) != odd {
		y = FNeg(y)
	}
	return Point{X: x, Y: y}, true
}
func MustDecompress(h string) Point {
	b, _ := hex.DecodeString(h)
	p, ok := Decompress(new(big.Int).SetBytes(b[1:]), uint(b[0]&1))
	if !ok {
		panic("ref: bad point")
	}
	return p
}

// Bytes32Raw is the 32-byte big-endian form without reduction.
func Bytes32Raw(a *big.Int) []byte { return a.FillBytes(make([]byte, 32)) }

// ---- RFC 9380 ----
func XMD(msg, dst []byte, length int) []byte {
	if len(dst) > 255 {
		h := sha256.Sum256(append([]byte("H2C-OVERSIZE-DST-"), dst...))
		dst = h[:]
	}
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	ell := (length + 31) / 32
	h := sha256.New()
	h.Write(make([]byte, 64))
	h.Write(msg)
	h.Write([]byte{byte(length >> 8), byte(length), 0})
	h.Write(dp)
	b0 := h.Sum(nil)
	var out []byte
	prev := make([]byte, 32)
	for i := 1; i <= ell; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		h := sha256.New()
		h.Write(x)
		h.Write([]byte{byte(i)})
		h.Write(dp)
		prev = h.Sum(nil)
		out = append(out, prev...)
	}
	return out[:length]
}
func hashMod(count int, msg, dst []byte, m *big.Int) []*big.Int {
	u := XMD(msg, dst, 48*count)
	out := make([]*big.Int, count)
	for i := range out {
		out[i] = new(big.Int).Mod(new(big.Int).SetBytes(u[i*48:(i+1)*48]), m)
	}
	return out
}
func HashToField(count int, msg, dst []byte) []*big.Int  { return hashMod(count, msg, dst, P) }
func HashToScalar(count int, msg, dst []byte) []*big.Int { return hashMod(count, msg, dst, N) }

var (
	isoA = hexInt("3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533")
	isoB = big.NewInt(1771)
	isoZ = FNeg(big.NewInt(11))
	k1   = []*big.Int{hexInt("8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7"), hexInt("7d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581"), hexInt("534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262"), hexInt("8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c")}
	k2   = []*big.Int{hexInt("d35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b"), hexInt("edadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14"), big.NewInt(1)}
	k3   = []*big.Int{hexInt("4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c"), hexInt("c75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3"), hexInt("29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931"), hexInt("2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84")}
	k4   = []*big.Int{hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b"), hexInt("7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573"), hexInt("6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f"), big.NewInt(1)}
)

func horner(k []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(k) - 1; i >= 0; i-- {
		r = FAdd(FMul(r, x), k[i])
	}
	return r
}

// MapToCurve is the straight-line (non-optimised) simplified SWU map of
// RFC 9380 section 6.6.2 followed by the 3-isogeny of appendix E.1.
func MapToCurve(u *big.Int) Point {
	u = FMod(u)
	zu2 := FMul(isoZ, FMul(u, u))
	tv1 := FInv(FAdd(FMul(zu2, zu2), zu2))
	x1 := FMul(FMul(FNeg(isoB), FInv(isoA)), FAdd(one, tv1))
	if tv1.Sign() == 0 {
		x1 = FMul(isoB, FInv(FMul(isoZ, isoA)))
	}
	g := func(x *big.Int) *big.Int {
		return FAdd(FAdd(FMul(FMul(x, x), x), FMul(isoA, x)), isoB)
	}
	var x, y *big.Int
	if gx1 := g(x1); FIsSquare(gx1) {
		x, y = x1, FSqrt(gx1)
	} else {
		x2 := FMul(zu2, x1)
		x, y = x2, FSqrt(g(x2))
	}
	if u.Bit(0) != y.Bit(0) {
		y = FNeg(y)
	}
	xd, yd := horner(k2, x), horner(k4, x)
	if xd.Sign() == 0 || yd.Sign() == 0 {
		return Infinity()
	}
	return Point{X: FMul(horner(k1, x), FInv(xd)), Y: FMul(y, FMul(horner(k3, x), FInv(yd)))}
}
func HashToCurve(msg, dst []byte) Point {
	u := HashToField(2, msg, dst)
	return MapToCurve(u[0]).Add(MapToCurve(u[1]))
}

// ---- random oracle ----
type RO struct {
	Dst string
	M   map[string][]byte
}

func NewRO(dst string) *RO { return &RO{Dst: dst, M: map[string][]byte{}} }
func (r *RO) Add(name string, ty byte, val []byte) *RO {
	b := []byte{ty}
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(val)))
	b = append(b, l[:]...)
	r.M[name] = append(b, val...)
	return r
}
func (r *RO) Bytes(name string, v []byte) *RO { return r.Add(name, 1, v) }
func (r *RO) Int(name string, v uint64) *RO {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return r.Add(name, 2, b[:])
}
func (r *RO) Point(name string, p Point) *RO { return r.Add(name, 3, p.Tagged()) }
func (r *RO) Scalar(name string, s *big.Int) *RO {
	return r.Add(name, 4, append([]byte{1}, Bytes32(s)...))
}
func (r *RO) Input() []byte {
	names := make([]string, 0, len(r.M))
	for n := range r.M {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []byte
	for _, n := range names {
		out = append(out, byte(len(n)))
		out = append(out, n...)
		out = append(out, r.M[n]...)
	}
	return out
}
func (r *RO) OutScalars(n int) []*big.Int {
	return HashToScalar(n, r.Input(), []byte(r.Dst+"-secp256k1"))
}
func (r *RO) OutPoint() Point       { return HashToCurve(r.Input(), []byte(r.Dst+"-secp256k1")) }
func (r *RO) OutBytes(n int) []byte { return XMD(r.Input(), []byte(r.Dst), n) }

// ---- ChaCha20 (RFC 8439, zero nonce, counter from 0) ----
func rotl(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }
func ChaCha20Stream(key []byte, n int) []byte {
	var out []byte
	for ctr := uint32(0); len(out) < n; ctr++ {
		var s, w [16]uint32
		s[0], s[1], s[2], s[3] = 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574
		for i := 0; i < 8; i++ {
			s[4+i] = binary.LittleEndian.Uint32(key[4*i:])
		}
		s[12] = ctr
		w = s
		qr := func(a, b, c, d int) {
			w[a] += w[b]
			w[d] = rotl(w[d]^w[a], 16)
			w[c] += w[d]
			w[b] = rotl(w[b]^w[c], 12)
			w[a] += w[b]
			w[d] = rotl(w[d]^w[a], 8)
			w[c] += w[d]
			w[b] = rotl(w[b]^w[c], 7)
		}
		for i := 0; i < 10; i++ {
			qr(0, 4, 8, 12)
			qr(1, 5, 9, 13)
			qr(2, 6, 10, 14)
			qr(3, 7, 11, 15)
			qr(0, 5, 10, 15)
			qr(1, 6, 11, 12)
			qr(2, 7, 8, 13)
			qr(3, 4, 9, 14)
		}
		for i := range w {
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], w[i]+s[i])
			out = append(out, b[:]...)
		}
	}
	return out[:n]
}

// SeedValue is the 32-byte value of a seed made from input with a label.
func SeedValue(input []byte, label string) []byte { return XMD(input, []byte(label), 32) }

// ---- polynomials ----
func Eval(c []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(c) - 1; i >= 0; i-- {
		r = Add(Mul(r, x), c[i])
	}
	return r
}
func EvalPts(c []Point, x *big.Int) Point {
	r := Infinity()
	for i := len(c) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(c[i])
	}
	return r
}

// LagrangeAt returns the coefficients for nodes xs at value v.
func LagrangeAt(v *big.Int, xs []*big.Int) []*big.Int {
	out := make([]*big.Int, len(xs))
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i != j {
				num = Mul(num, Sub(v, xs[j]))
				den = Mul(den, Sub(xs[i], xs[j]))
			}
		}
		out[i] = Mul(num, Inv(den))
	}
	return out
}
func InterpolateAt(v *big.Int, xs, ys []*big.Int) *big.Int {
	r := new(big.Int)
	for i, c := range LagrangeAt(v, xs) {
		r = Add(r, Mul(c, ys[i]))
	}
	return r
}

// Interpolate returns the coefficients of the polynomial through the samples.
func Interpolate(xs, ys []*big.Int) []*big.Int {
	res := make([]*big.Int, len(xs))
	for i := range res {
		res[i] = new(big.Int)
	}
	for i := range xs {
		basis := []*big.Int{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range xs {
			if j == i {
				continue
			}
			nb := make([]*big.Int, len(basis)+1)
			for k := range nb {
				nb[k] = new(big.Int)
			}
			for k := range basis {
				nb[k+1] = Add(nb[k+1], basis[k])
				nb[k] = Sub(nb[k], Mul(basis[k], xs[j]))
			}
			basis = nb
			den = Mul(den, Sub(xs[i], xs[j]))
		}
		f := Mul(ys[i], Inv(den))
		for k := range basis {
			res[k] = Add(res[k], Mul(basis[k], f))
		}
	}
	return res
}

// ---- BIP32 public derivation, arbitrary-length indices ----
func NextIndex(i []byte) []byte {
	out := append([]byte{}, i...)
	for k := len(out) - 1; k >= 0; k-- {
		out[k]++
		if out[k] != 0 {
			return out
		}
	}
	return append([]byte{1}, out...)
}

type HMACFunc func(key []byte, msg []byte) []byte

func HMAC512(key, msg []byte) []byte {
	m := hmac.New(sha512.New, key)
	m.Write(msg)
	return m.Sum(nil)
}
func Derive(pk Point, path [][]byte, hm HMACFunc) (tweak *big.Int, chain []byte, derived Point, retries int) {
	chain = make([]byte, 32)
	tweak = new(big.Int)
	cur := pk
	for _, idx := range path {
		for {
			o := hm(chain, append(cur.Compressed(), idx...))
			il := new(big.Int).SetBytes(o[:32])
			next := cur.Add(MulG(il))
			if il.Cmp(N) >= 0 || next.Inf {
				idx = NextIndex(idx)
				retries++
				continue
			}
			cur, chain, tweak = next, o[32:], Add(tweak, il)
			break
		}
	}
	return tweak, chain, cur, retries
}

// ---- ECDSA ----
func HashInt(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}
func ECDSAVerify(pk Point, hash []byte, r, s *big.Int) bool {
	if pk.Inf || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := Inv(s)
	rp := MulG(Mul(HashInt(hash), w)).Add(pk.Mul(Mul(r, w)))
	return !rp.Inf && Mod(rp.X).Cmp(r) == 0
}
