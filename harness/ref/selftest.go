package ref

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
)

// SelfTest checks the model against published vectors and against itself, so
// that a broken model is reported as such and never as a violation.
func SelfTest() error {
	// RFC 9380 K.1 expand_message_xmd(SHA-256)
	d := []byte("QUUX-V01-CS02-with-expander-SHA256-128")
	if hex.EncodeToString(XMD([]byte("abc"), d, 32)) != "d8ccab23b5985ccea865c6c97b6e5b8350e794e603b4b97902f53a8a0d605615" {
		return fmt.Errorf("ref: xmd vector")
	}
	long := []byte("QUUX-V01-CS02-with-expander-SHA256-128-long-DST-1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111")
	if len(long) != 256 || hex.EncodeToString(XMD(nil, long, 32)) != "e8dc0c8b686b7ef2074086fbdd2f30e3f8bfbd3bdf177f73f04b97ce618a3ed3" {
		return fmt.Errorf("ref: xmd long dst vector (%d)", len(long))
	}
	// RFC 9380 J.8.1 secp256k1_XMD:SHA-256_SSWU_RO_, msg = "" and "abc"
	dst := []byte("QUUX-V01-CS02-with-secp256k1_XMD:SHA-256_SSWU_RO_")
	if p := HashToCurve(nil, dst); hex.EncodeToString(Bytes32(p.X)) != "c1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346" {
		return fmt.Errorf("ref: h2c vector 1")
	}
	if p := HashToCurve([]byte("abc"), dst); hex.EncodeToString(Bytes32(p.X)) != "3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b" || !OnCurve(p.X, p.Y) {
		return fmt.Errorf("ref: h2c vector 2")
	}
	// RFC 8439 2.3.2-like: all-zero key, zero nonce, counter 0
	if hex.EncodeToString(ChaCha20Stream(make([]byte, 32), 16)) != "76b8e0ada0f13d90405d6ae55386bd28" {
		return fmt.Errorf("ref: chacha20")
	}
	// group law: slow against fast, order of G, H on the curve
	if !G.MulSlow(N).Inf || !OnCurve(H.X, H.Y) {
		return fmt.Errorf("ref: order")
	}
	if l := MulG(Lambda); l.Y.Cmp(G.Y) != 0 || l.X.Cmp(G.X) == 0 {
		return fmt.Errorf("ref: lambda")
	}
	k := new(big.Int).SetBytes(XMD([]byte("k"), []byte("selftest"), 32))
	for i := 0; i < 8; i++ {
		k = Mul(k, Add(k, big.NewInt(int64(i+3))))
		if !G.MulSlow(k).Equal(G.Mul(k)) || !H.MulSlow(k).Equal(H.Mul(k)) {
			return fmt.Errorf("ref: mul mismatch")
		}
	}
	// BIP32 test vector 1: chain m/0H -> m/0H/1 is public derivation; use vector 2 style check through HMAC only
	if !bytes.Equal(NextIndex([]byte{0xff}), []byte{1, 0}) {
		return fmt.Errorf("ref: next index")
	}
	// BIP32 test vector 2, m -> m/0 (non-hardened); chain code and key from the published xpubs
	pk := MustDecompress("03cbcaa9c98c877a26977d00825c956a238e8dddfbd322cce4f74b0b5bd6ace4a7")
	cc, _ := hex.DecodeString("60499f801b896d83179a4374aeb7822aaeaceaa0db1f85ee3e904c4defbd9689")
	o := HMAC512(cc, append(pk.Compressed(), 0, 0, 0, 0))
	child := pk.Add(MulG(new(big.Int).SetBytes(o[:32])))
	if hex.EncodeToString(child.Compressed()) != "02fc9e5af0ac8d9b3cecfe2a888e2117ba3d089d8585886c9c826b6b22a98d12ea" ||
		hex.EncodeToString(o[32:]) != "f0909affaa7ee7abe5dd4e100598d4dc53cd709d5a5c2cac40e7412f232f7c9c" {
		return fmt.Errorf("ref: bip32 vector")
	}
	// sign/verify consistency
	x, kk, e := big.NewInt(12345), big.NewInt(6789), Bytes32(big.NewInt(424242))
	r := Mod(MulG(kk).X)
	s := Mul(Inv(kk), Add(HashInt(e), Mul(r, x)))
	if !ECDSAVerify(MulG(x), e, r, s) || ECDSAVerify(MulG(x), e, r, Add(s, one)) {
		return fmt.Errorf("ref: ecdsa")
	}
	// interpolation
	c := []*big.Int{big.NewInt(5), big.NewInt(0), big.NewInt(7)}
	xs := []*big.Int{big.NewInt(1), big.NewInt(4), big.NewInt(9)}
	ys := []*big.Int{Eval(c, xs[0]), Eval(c, xs[1]), Eval(c, xs[2])}
	ic := Interpolate(xs, ys)
	for i := range c {
		if ic[i].Cmp(c[i]) != 0 {
			return fmt.Errorf("ref: interpolate")
		}
	}
	if InterpolateAt(big.NewInt(77), xs, ys).Cmp(Eval(c, big.NewInt(77))) != 0 {
		return fmt.Errorf("ref: lagrange")
	}
	return nil
}
