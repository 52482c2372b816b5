From 252a3ccd9e390f82141945830fa73a7e65498623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 01/45] fix: IsHigh compares scalar values instead of their
 Montgomery limbs

---
 curve/k256_scalar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..e4d1878 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -125,8 +125,8 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
-	return true
+	// Field.Cmp compares the Montgomery representations, not the values
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
 	return cbor.Marshal(s.SerializeTagged())
-- 
2.43.0


From b59010d559bcaacf2274509b59565eb2cac74c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 02/45] fix: inverting zero gives zero whatever the receiver
 held

---
 curve/k256_fe.go     | 7 ++++++-
 curve/k256_scalar.go | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 6badaaa..805d104 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -133,7 +133,12 @@ func (s *Secp256k1Field) CAssign(other EccFieldElement, choice int) {
 }
 
 func (s *Secp256k1Field) Invert(other EccFieldElement) EccFieldElement {
-	s.field.Invert(other.(*Secp256k1Field).field)
+	o := other.(*Secp256k1Field)
+	if o.field.IsZero() == 1 {
+		s.field.SetZero()
+		return s
+	}
+	s.field.Invert(o.field)
 	return s
 }
 
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index e4d1878..ac099b3 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -83,6 +83,10 @@ func (s *Secp256k1Scalar) Mul(lhs, rhs EccScalar) EccScalar {
 
 func (s *Secp256k1Scalar) Invert(other EccScalar) EccScalar {
 	o := other.(*Secp256k1Scalar)
+	if o.scalar.IsZero() == 1 {
+		s.scalar.SetZero()
+		return s
+	}
 	s.scalar.Invert(o.scalar)
 	return s
 }
-- 
2.43.0


From 2d678b84fc5924270fb35c33a21dbccf2a94c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:13 +0000
Subject: [PATCH 03/45] fix: AddPoints and SubPoints allow the receiver to be
 the right operand

---
 curve/k256_point.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..5e50922 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -102,14 +102,15 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Add(l.point, r.point)
+	// native Add overwrites its receiver first, so it must not be the right operand
+	s.point.Set(k256.K256PointNew().Add(l.point, r.point))
 	return s
 }
 
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Sub(l.point, r.point)
+	s.point.Set(k256.K256PointNew().Sub(l.point, r.point))
 	return s
 }
 
-- 
2.43.0


From 1e8c3cb000430d6d8f90562c938e62d24683fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:00 +0000
Subject: [PATCH 04/45] fix: tagged point decoding skips the tag and unknown
 curves are refused

---
 curve/point.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..7ff38fc 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,9 +101,15 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	if FromTag(bytes[0]) != curve {
+		return nil, errors.New("invalid point, curve mismatch")
+	}
+	return p.Deserialize(curve, bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
+	if curve != K256 {
+		return nil, errors.New("unknown curve")
+	}
 	if len(bytes) != curve.PointBytes() {
 		return nil, errors.New("invalid point")
 	}
@@ -123,10 +129,14 @@ func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
 	}
 	return p.DeserializeAnyFormat(curve, bytes)
 }
-func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (pt EccPoint, err error) {
+func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (EccPoint, error) {
 	switch curve {
 	case K256:
-		pt, err = K256Point.Deserialize(bytes)
+		ec, err := K256Point.Deserialize(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return ec, nil
 	}
-	return pt, err
+	return nil, errors.New("unknown curve")
 }
-- 
2.43.0


From 09734300886b6b2c501b8857f3ae297747545619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 05/45] fix: tagged scalar decoding skips the tag and unknown
 curves are refused

---
 curve/scalar.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..3b5349d 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -47,27 +47,22 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid scalar")
 	}
-	var scalar EccScalar
-	var err error
-	switch EccCurveType(bytes[0]) {
-	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
-	}
-	return scalar, err
+	return s.Deserialize(FromTag(bytes[0]), bytes[1:])
 }
 
 func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid scalar")
 	}
-	var scalar EccScalar
-	var err error
 	switch curve {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes)
+		scalar, err := K256Scalar.Deserialize(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return scalar, nil
 	}
-	return scalar, err
+	return nil, errors.New("unknown curve")
 }
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
-- 
2.43.0


From 372d09ab6a635c8f97368d4fa2a49b95116da974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:02 +0000
Subject: [PATCH 06/45] fix: scalar and field decoding refuse inputs of the
 wrong length

---
 curve/fe.go          | 15 +++++++++++----
 curve/k256_fe.go     |  4 ++++
 curve/k256_scalar.go |  4 ++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/curve/fe.go b/curve/fe.go
index 35277c1..29c4d39 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -1,6 +1,9 @@
 package curve
 
-import "math/big"
+import (
+	"github.com/pkg/errors"
+	"math/big"
+)
 
 var (
 	Field = field{}
@@ -104,12 +107,16 @@ func (f field) SswuC2(curve EccCurveType) EccFieldElement {
 	return fe
 }
 
-func (f field) FromBytes(curve EccCurveType, bytes []byte) (fe EccFieldElement, err error) {
+func (f field) FromBytes(curve EccCurveType, bytes []byte) (EccFieldElement, error) {
 	switch curve {
 	case K256:
-		fe, err = K256Field.FromBytes(bytes)
+		fe, err := K256Field.FromBytes(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return fe, nil
 	}
-	return fe, err
+	return nil, errors.New("unknown curve")
 }
 
 func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement, error) {
diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 805d104..58dbbd2 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -5,6 +5,7 @@ import (
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -34,6 +35,9 @@ func (e EccK256Field) FromHex(h string) *Secp256k1Field {
 }
 func (EccK256Field) FromBytes(bytes []byte) (*Secp256k1Field, error) {
 	var r [32]byte
+	if len(bytes) != len(r) {
+		return nil, errors.New("invalid field element length")
+	}
 	copy(r[:], common.ReverseBytes(bytes[:]))
 	field, err := fp.K256FpNew().SetBytes(&r)
 	if err != nil {
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index ac099b3..4df8666 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
-- 
2.43.0


From 2f3ca5252b0a6c1f17bfd20e83db739fdcedd51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:03 +0000
Subject: [PATCH 07/45] fix: wide reduction refuses more than 64 bytes instead
 of truncating or crashing

---
 curve/fe.go     | 3 +++
 curve/scalar.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/curve/fe.go b/curve/fe.go
index 29c4d39..dc42ae6 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -121,6 +121,9 @@ func (f field) FromBytes(curve EccCurveType, bytes []byte) (EccFieldElement, err
 
 func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement, error) {
 	var fe EccFieldElement
+	if len(bytes) > 64 {
+		return nil, errors.New("wide field element longer than 64 bytes")
+	}
 	switch curve {
 	case K256:
 		fe = K256Field.FromBytesWide(bytes)
diff --git a/curve/scalar.go b/curve/scalar.go
index 3b5349d..db0e5f4 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -67,6 +67,9 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	var scalar EccScalar
+	if len(bytes) > 64 {
+		return nil, errors.New("wide scalar longer than 64 bytes")
+	}
 	switch curve {
 	case K256:
 		scalar = K256Scalar.FromWideBytes(bytes)
-- 
2.43.0


From 5f09adbf4f3fbb649047a55b286f7469aeda6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:04 +0000
Subject: [PATCH 08/45] fix: SEC1 decoding refuses empty input and unknown tags

---
 curve/encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..c856f69 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,15 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed: empty input")
+	}
 	tag := Tag(input[0])
+	switch tag {
+	case Identity, CompressedEvenY, CompressedOddY, Uncompressed, Compact:
+	default:
+		return nil, errors.New("point decode failed: unknown tag")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
-- 
2.43.0


From e842817cc4dac76d0620be3854d53702b82ed1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:05 +0000
Subject: [PATCH 09/45] fix: the SEC1 encoding of infinity decodes to infinity

---
 curve/k256_point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 5e50922..2c225be 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -80,7 +80,7 @@ func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
-- 
2.43.0


From 3f6a6fa2f932192f1d928283852c61ef38e58533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:06 +0000
Subject: [PATCH 10/45] fix: point decoding refuses coordinates out of range or
 off the curve

---
 curve/k256_point.go | 47 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 2c225be..668fd6b 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,7 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
-	"math/big"
+	"github.com/pkg/errors"
 	"math/bits"
 )
 
@@ -45,36 +45,49 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 }
 
 func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
-
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
+	x, err := K256Field.FromBytes(xb)
+	if err != nil {
+		return nil, err
+	}
+	y, err := K256Field.FromBytes(yb)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew()
-	value.X = x
-	value.Y = y
+	value.X = x.field
+	value.Y = y.field
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("invalid point, not on the curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
+	fe, err := K256Field.FromBytes(bytes)
+	if err != nil {
+		return nil, err
+	}
+	x := fe.field
 
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then no point has this x coordinate
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
-		// fix the sign
-		sigY := int(y.Bytes()[0] & 1)
-		if sigY != sign {
-			y.Neg(y)
-		}
-		value.X = x
-		value.Y = y
-		value.Z.SetOne()
+	if !wasQr {
+		return nil, errors.New("invalid point, not on the curve")
 	}
+	// fix the sign
+	sigY := int(y.Bytes()[0] & 1)
+	if sigY != sign {
+		y.Neg(y)
+	}
+	value.X = x
+	value.Y = y
+	value.Z.SetOne()
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
-- 
2.43.0


From aac631be29e429b260fb69f2bedfbea4f6582e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:07 +0000
Subject: [PATCH 11/45] fix: SerializeUncompressed of a finite point no longer
 crashes

---
 curve/k256_point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 668fd6b..0686fe4 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -173,7 +173,11 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
+	size := s.CurveType().PointBytes()
+	if encode.Len() > size {
+		size = encode.Len()
+	}
+	result := make([]byte, size, size)
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From 9e8ffb63351cf4e8db0633df9545efe8a49e021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:08 +0000
Subject: [PATCH 12/45] fix: ToScalarBytes returns the scalar bytes instead of
 nil

---
 curve/scalar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curve/scalar.go b/curve/scalar.go
index db0e5f4..679a245 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -117,6 +117,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
-- 
2.43.0


From 785f9f30d5bb1a3d1b0be27ade39d99314f4c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:09 +0000
Subject: [PATCH 13/45] fix: CBOR decoding of scalars and points checks tag and
 length and handles infinity

---
 curve/k256_point.go  | 4 ++--
 curve/k256_scalar.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 0686fe4..61ae8c4 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -226,10 +226,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(K256, bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = tmp.(*Secp256k1Point).point
 	return nil
 }
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 4df8666..505b733 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -145,11 +145,11 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Scalar.Deserialize(bytes[1:])
+	tmp, err := Scalar.DeserializeTagged(bytes)
 	if err != nil {
 		return err
 	}
-	s.scalar = tmp.scalar
+	s.scalar = tmp.(*Secp256k1Scalar).scalar
 	return nil
 }
 func (s Secp256k1Scalar) BigInt() *big.Int {
-- 
2.43.0


From db4e55606a7fd6b60bb9e08957b78d34a53ca161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:26 +0000
Subject: [PATCH 14/45] fix: the random oracle absorbs inputs longer than 255
 bytes

---
 ro/ro.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..af13620 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,8 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	// the length is encoded in 4 bytes
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From 61d8dacdc39528ac9603d2c0a132b99dded37baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:27 +0000
Subject: [PATCH 15/45] fix: FillUint8 overwrites the destination instead of
 xoring into it

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From 4b54b954851c24f3af78307bf7fa29ad565eaa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:29 +0000
Subject: [PATCH 16/45] fix: Polynomial.MulScalar multiplies its operand, not
 its receiver

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..d36730d 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -124,7 +124,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From 2df4258cccd36d9e08faa1f7a0fc0992deeb1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 17/45] fix: interpolation accepts samples that lie on a
 lower-degree polynomial

---
 poly/poly.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index d36730d..ec2a8d4 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -181,8 +181,8 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		term := Poly.Zero(curveType).MulScalar(base, diff)
+		poly = poly.Add(poly, term)
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 99ced658ca48bf093a067ce94f3f5ab418463fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 18/45] fix: polynomials with interior zero coefficients are
 not committed truncated

---
 poly/poly.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index ec2a8d4..6085f2c 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -72,15 +72,14 @@ func (p Polynomial) Coeff(idx int) curve.EccScalar {
 	return curve.Scalar.Zero(p.curve)
 }
 
-/// Return the count of non-zero coefficients
+/// Return the count of coefficients up to the last non-zero one
 func (p Polynomial) NonZeroCoefficients() int {
-	zeros := 0
-	for _, c := range p.coefficients {
-		if c.IsZero() == 1 {
-			zeros++
+	for i := len(p.coefficients) - 1; i >= 0; i-- {
+		if p.coefficients[i].IsZero() == 0 {
+			return i + 1
 		}
 	}
-	return len(p.coefficients) - zeros
+	return 0
 }
 func (p Polynomial) IsZero() int {
 	flag := 0
-- 
2.43.0


From dc28c15748b23569e2d174607ee31ea5c9b1d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:32 +0000
Subject: [PATCH 19/45] fix: commitments of different kinds are not equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..a652416 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -205,7 +205,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Type() != other.Type() || s.Len() != other.Len() {
 		return 0
 	}
 	for i := range s.points {
@@ -328,7 +328,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Type() != other.Type() || p.Len() != other.Len() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From d17a88185c27c4d45cd91db4424907430c59ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:33 +0000
Subject: [PATCH 20/45] fix: checking an opening of another kind, by pointer or
 incomplete no longer crashes

---
 poly/commitment.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index a652416..f19c2c9 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -39,6 +39,32 @@ type commitmentOpening struct {
 type SimpleCommitmentOpening [1]curve.EccScalar
 type PedersenCommitmentOpening [2]curve.EccScalar
 
+// AsSimpleOpening returns the opening if it is a complete simple opening
+func AsSimpleOpening(opening CommitmentOpening) (SimpleCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case SimpleCommitmentOpening:
+		return o, o[0] != nil
+	case *SimpleCommitmentOpening:
+		if o != nil {
+			return *o, o[0] != nil
+		}
+	}
+	return SimpleCommitmentOpening{}, false
+}
+
+// AsPedersenOpening returns the opening if it is a complete pedersen opening
+func AsPedersenOpening(opening CommitmentOpening) (PedersenCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case PedersenCommitmentOpening:
+		return o, o[0] != nil && o[1] != nil
+	case *PedersenCommitmentOpening:
+		if o != nil {
+			return *o, o[0] != nil && o[1] != nil
+		}
+	}
+	return PedersenCommitmentOpening{}, false
+}
+
 type commitmentOpeningCbor struct {
 	CurveType  curve.EccCurveType
 	CommitType PolynomialCommitmentType
@@ -242,7 +268,10 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
+	o, ok := AsSimpleOpening(opening)
+	if !ok {
+		return false
+	}
 	return s.checkOpening(evalPoint, o[0])
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
@@ -364,7 +393,10 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
+	o, ok := AsPedersenOpening(opening)
+	if !ok {
+		return false
+	}
 	return p.checkOpening(evalPoint, o[0], o[1])
 }
 
-- 
2.43.0


From 997cc93e985f4073712e81ae2c0a96c6e33fdc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:33 +0000
Subject: [PATCH 21/45] fix: openings keep their kind when serialized and
 malformed ones are refused

---
 poly/commitment.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index f19c2c9..172d560 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -75,6 +75,23 @@ type commitmentOpeningCbor struct {
 func (commitmentOpening) OpenDealing() (CommitmentOpening, error) {
 	return nil, nil
 }
+func decodeScalars(data []byte, count int) ([]curve.EccScalar, error) {
+	var raw []*curve.Secp256k1Scalar
+	if err := cbor.Unmarshal(data, &raw); err != nil {
+		return nil, err
+	}
+	if len(raw) != count {
+		return nil, errors.New("unexpected number of scalars in opening")
+	}
+	scalars := make([]curve.EccScalar, count, count)
+	for i := range raw {
+		if raw[i] == nil {
+			return nil, errors.New("missing scalar in opening")
+		}
+		scalars[i] = raw[i]
+	}
+	return scalars, nil
+}
 func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	var c commitmentOpeningCbor
 	if err := cbor.Unmarshal(data, &c); err != nil {
@@ -84,17 +101,21 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			scalars, err := decodeScalars(c.Message, 1)
+			if err != nil {
+				return nil, err
+			}
+			return &SimpleCommitmentOpening{scalars[0]}, nil
 		}
 
 	case Pedersen:
 		switch c.CurveType {
 		case curve.K256:
-			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			scalars, err := decodeScalars(c.Message, 2)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitmentOpening{scalars[0], scalars[1]}, nil
 		}
 	}
 	return nil, errors.New("unknown commitment type")
@@ -128,7 +149,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From fc8d0ce5f99ce02002c0dcdb298333c5614b845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:34 +0000
Subject: [PATCH 22/45] fix: Pedersen commitments deserialize and malformed
 commitments are refused

---
 poly/commitment.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 172d560..07db417 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -451,6 +451,24 @@ type PolynomialCommitment interface {
 
 type polynomialCommitment struct{}
 
+func decodePoints(data []byte) ([]curve.EccPoint, error) {
+	var raw []*curve.Secp256k1Point
+	if err := cbor.Unmarshal(data, &raw); err != nil {
+		return nil, err
+	}
+	if len(raw) == 0 {
+		return nil, errors.New("commitment without points")
+	}
+	points := make([]curve.EccPoint, len(raw), len(raw))
+	for i := range raw {
+		if raw[i] == nil {
+			return nil, errors.New("missing point in commitment")
+		}
+		points[i] = raw[i]
+	}
+	return points, nil
+}
+
 func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, error) {
 	var c polynomialCommitmentCbor
 	if err := cbor.Unmarshal(bytes, &c); err != nil {
@@ -460,17 +478,21 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			var ps []*curve.Secp256k1Point
-			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+			points, err := decodePoints(c.Message)
+			if err != nil {
 				return nil, err
 			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
-			}
 			return &SimpleCommitment{points: points}, nil
 		}
 	case Pedersen:
+		switch c.CurveType {
+		case curve.K256:
+			points, err := decodePoints(c.Message)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitment{points: points}, nil
+		}
 	}
 	return nil, errors.New("invalid commitment")
 
-- 
2.43.0


From 226291674c9f3bbb29ba1153e4009a52110a8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:35 +0000
Subject: [PATCH 23/45] fix: shares built from opening bytes can be used to
 create dealings

---
 dealings/secret_shares.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..5f395c8 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unexpected commitment opening type")
 	}
 	return share, nil
 }
-- 
2.43.0


From e10c4589142c466c7958f4b94924516b16fcb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 24/45] fix: openings and commitments followed by other data
 are refused

---
 poly/commitment.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 07db417..8d6ac9c 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -1,6 +1,7 @@
 package poly
 
 import (
+	"bytes"
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/PlatONnetwork/tecdsa/curve"
 	"github.com/fxamacker/cbor/v2"
@@ -92,9 +93,20 @@ func decodeScalars(data []byte, count int) ([]curve.EccScalar, error) {
 	}
 	return scalars, nil
 }
+// unmarshalExact decodes a single item that must span the whole input
+func unmarshalExact(data []byte, v interface{}) error {
+	dec := cbor.NewDecoder(bytes.NewReader(data))
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	if dec.NumBytesRead() != len(data) {
+		return errors.New("trailing data")
+	}
+	return nil
+}
 func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	var c commitmentOpeningCbor
-	if err := cbor.Unmarshal(data, &c); err != nil {
+	if err := unmarshalExact(data, &c); err != nil {
 		return nil, err
 	}
 	switch c.CommitType {
@@ -471,7 +483,7 @@ func decodePoints(data []byte) ([]curve.EccPoint, error) {
 
 func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, error) {
 	var c polynomialCommitmentCbor
-	if err := cbor.Unmarshal(bytes, &c); err != nil {
+	if err := unmarshalExact(bytes, &c); err != nil {
 		return nil, err
 	}
 	switch c.CommitmentType {
-- 
2.43.0


From 25459482328e5dbf9580a7940e809a4dea8a538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:39 +0000
Subject: [PATCH 25/45] fix: product proofs use their own domain separator

---
 zk/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zk/product.go b/zk/product.go
index 62d5979..cee2d10 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -89,7 +89,7 @@ func (p *proofOfProductInstance) Create(seed *seed.Seed, lhs curve.EccScalar, rh
 }
 
 func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
-	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
+	ro := ro2.NewRandomOracle(ProofOfProductDst)
 	ro.AddBytesString("associated_data", associatedData)
 	ro.AddPoint("instance_g", p.g)
 	ro.AddPoint("instance_h", p.h)
-- 
2.43.0


From 20935d013ee425ce8770be898c0d87d090567398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:40 +0000
Subject: [PATCH 26/45] fix: cloning a product proof copies its scalars

---
 zk/product.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zk/product.go b/zk/product.go
index cee2d10..2c00978 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -115,8 +115,8 @@ func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, pr
 }
 func (p *ProofOfProduct) Clone() *ProofOfProduct {
 	return &ProofOfProduct{
-		challenge: p.challenge,
-		response1: p.response1,
-		response2: p.response2,
+		challenge: p.challenge.Clone(),
+		response1: p.response1.Clone(),
+		response2: p.response2.Clone(),
 	}
 }
-- 
2.43.0


From b45b460972dee55c303c92d02aefd89022beb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:55 +0000
Subject: [PATCH 27/45] fix: decrypting for a negative recipient index is an
 error, not a crash

---
 mega/ciphertext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mega/ciphertext.go b/mega/ciphertext.go
index 19e115c..30d4cd4 100644
--- a/mega/ciphertext.go
+++ b/mega/ciphertext.go
@@ -198,7 +198,7 @@ func (m MEGaCiphertextSingle) VerifyPop(ad []byte, dealerIndex common.NodeIndex)
 }
 
 func (m MEGaCiphertextSingle) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) (curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return nil, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextSingle, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
@@ -286,7 +286,7 @@ func (m MEGaCiphertextPair) VerifyPop(ad []byte, dealerIndex common.NodeIndex) e
 }
 
 func (m MEGaCiphertextPair) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) ([2]curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return [2]curve.EccScalar{}, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
-- 
2.43.0


From 758e14451c7f643b65e3f8121dbea3480651211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:18 +0000
Subject: [PATCH 28/45] fix: a product dealing without a proof is refused
 instead of crashing verification

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..d8c1c07 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -164,7 +164,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From 40b473a906c5ff593e05ebd85d7caa7f14179e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:19 +0000
Subject: [PATCH 29/45] fix: resharing a combined commitment is checked against
 the dealer's share

---
 dealings/dealings.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index d8c1c07..ef22d8a 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -156,13 +156,8 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
 	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
-- 
2.43.0


From c00c0bf4913fa87387bf73992e4f24fb7cae1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 30/45] fix: negative thresholds and unknown share kinds are
 refused when dealing

---
 dealings/dealings.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index ef22d8a..b4106a9 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
@@ -108,11 +108,19 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 			return nil, err
 		}
 		mask, err := poly2.Poly.RandomWithConstant(productMasking, numCoefficients, polyRng)
+		if err != nil {
+			return nil, err
+		}
 		if ciphertext, commitment, err = EncryptAndCommitPairPolynomial(values, mask, numCoefficients, recipients, dealerIndex, ad, megaSeed); err != nil {
 			return nil, err
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
+		if err != nil {
+			return nil, err
+		}
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unexpected share type")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
-- 
2.43.0


From 764e94cc7912529c5003acf6a8fc71e55f6db324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 31/45] fix: comparing transcripts compares with the other
 transcript

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From fca93c2db67cb714e499b6595d8d7264bb2f8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:21 +0000
Subject: [PATCH 32/45] fix: unknown transcript operations are refused

---
 dealings/transcript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..f8aeb23 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -118,6 +118,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unexpected transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 6402543376b77f7e994465db49fb712e9fc15d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:22 +0000
Subject: [PATCH 33/45] fix: combining dealings checks the kind and size of
 their commitments

---
 dealings/transcript.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index f8aeb23..868eae3 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -23,6 +23,11 @@ type UnmaskedTimesMaskedTranscript struct {
 }
 
 func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitmentType, curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
+	for _, dealing := range verifiedDealings.Values() {
+		if dealing.Commitment.Type() != commitmentType || dealing.Commitment.Len() != reconstructionThreshold {
+			return nil, errors.New("unexpected commitment type")
+		}
+	}
 	commitments := make([]poly.PolynomialCommitment, 0, verifiedDealings.Len())
 	indexes := make([]common.NodeIndex, 0, verifiedDealings.Len())
 	verifiedDealings.Scan(func(index common.NodeIndex, dealing *IDkgDealingInternal) bool {
-- 
2.43.0


From 0f04cfccecc8e24ba4e5ed4c4d882ae90a923134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:01 +0000
Subject: [PATCH 34/45] fix: deserialized openings are combined instead of
 being refused or skipped

---
 dealings/commitment.go | 29 +++++++++++++----------------
 dealings/transcript.go | 20 +++++++++-----------
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index e7bfb86..c9a70b3 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -74,13 +74,12 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 		combinedValue := curve.Scalar.Zero(curveType)
 		combinedMask := curve.Scalar.Zero(curveType)
 		for _, opening := range commitmentOpenings {
-			switch o := opening.(type) {
-			case poly.PedersenCommitmentOpening:
-				combinedValue = combinedValue.Add(combinedValue, o[0])
-				combinedMask = combinedMask.Add(combinedMask, o[1])
-			default:
+			o, ok := poly.AsPedersenOpening(opening)
+			if !ok {
 				return nil, errors.New("unexpected commitment type")
 			}
+			combinedValue = combinedValue.Add(combinedValue, o[0])
+			combinedMask = combinedMask.Add(combinedMask, o[1])
 		}
 		opening = poly.PedersenCommitmentOpening([2]curve.EccScalar{combinedValue, combinedMask})
 	case *InterpolationCommitment:
@@ -90,13 +89,12 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			values := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
-				case poly.SimpleCommitmentOpening:
-					xValues = append(xValues, dealerIndex)
-					values = append(values, o[0])
-				default:
+				o, ok := poly.AsSimpleOpening(opening)
+				if !ok {
 					return nil, errors.New("unexpected commitment type")
 				}
+				xValues = append(xValues, dealerIndex)
+				values = append(values, o[0])
 			}
 
 			coefficients, err := poly.Lagrange.AtZero(curveType, xValues)
@@ -115,14 +113,13 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			masks := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
-				case poly.PedersenCommitmentOpening:
-					xValues = append(xValues, dealerIndex)
-					values = append(values, o[0])
-					masks = append(masks, o[1])
-				default:
+				o, ok := poly.AsPedersenOpening(opening)
+				if !ok {
 					return nil, errors.New("unexpected commitment type")
 				}
+				xValues = append(xValues, dealerIndex)
+				values = append(values, o[0])
+				masks = append(masks, o[1])
 			}
 			coefficients, err := poly.Lagrange.AtZero(curveType, xValues)
 			if err != nil {
diff --git a/dealings/transcript.go b/dealings/transcript.go
index 868eae3..06d8c56 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -156,14 +156,13 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		xValues := make([]common.NodeIndex, 0, openings.Len())
 		values := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
-			case poly.SimpleCommitmentOpening:
-				xValues = append(xValues, receiverIndex)
-				values = append(values, o[0])
-			case poly.PedersenCommitmentOpening:
+			o, ok := poly.AsSimpleOpening(opening)
+			if !ok {
 				err = errors.New("unexpected commitment type")
 				return false
 			}
+			xValues = append(xValues, receiverIndex)
+			values = append(values, o[0])
 			return true
 		})
 		if err != nil {
@@ -183,15 +182,14 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		values := make([]curve.EccScalar, 0, openings.Len())
 		masks := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
-			case poly.PedersenCommitmentOpening:
-				xValues = append(xValues, receiverIndex)
-				values = append(values, o[0])
-				masks = append(masks, o[1])
-			case poly.SimpleCommitmentOpening:
+			o, ok := poly.AsPedersenOpening(opening)
+			if !ok {
 				err = errors.New("unexpected commitment type")
 				return false
 			}
+			xValues = append(xValues, receiverIndex)
+			values = append(values, o[0])
+			masks = append(masks, o[1])
 			return true
 		})
 		if err != nil {
-- 
2.43.0


From 1f7cc7b94567cce5c43ac7d1d5f2986fce0158c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 35/45] fix: signature share verification checks the share

---
 sign/share.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..6086060 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -69,18 +69,22 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	numerator, ok := poly2.AsPedersenOpening(t.sigmaNumerator)
+	if !ok {
+		return errors.New("unexpected commitment type")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if sigmaNum.Equal(curve.Point.Pedersen(numerator[0], numerator[1])) != 1 {
+		return errors.New("invalid commitment")
+	}
+	denominator, ok := poly2.AsPedersenOpening(t.sigmaDenominator)
+	if !ok {
+		return errors.New("unexpected commitment type")
+	}
+	if sigmaDen.Equal(curve.Point.Pedersen(denominator[0], denominator[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
 	return nil
 }
-- 
2.43.0


From f6eeae86c4e47269b8fe54dbc2603a002ac5b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 36/45] fix: signature shares are not created from openings of
 the wrong kind

---
 sign/share.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index 6086060..56e8080 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -24,29 +24,31 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		return nil, err
 	}
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
-	var lambdaValue curve.EccScalar
-	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
-		lambdaValue = l[0]
-		lambdaMask = l[1]
+	l, ok := poly2.AsPedersenOpening(lambda)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
-	var nu poly2.CommitmentOpening
-	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
-		nuValue := theta.Clone().Mul(theta, lambdaValue)
-		nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
-		nuMask := theta.Clone().Mul(theta, lambdaMask)
-		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
-		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	lambdaValue, lambdaMask := l[0], l[1]
+
+	k, ok := poly2.AsPedersenOpening(keyTimesLambda)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
+	nuValue := theta.Clone().Mul(theta, lambdaValue)
+	nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
+	nuMask := theta.Clone().Mul(theta, lambdaMask)
+	nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
+	nu := poly2.PedersenCommitmentOpening{nuValue, nuMask}
 
-	var mu poly2.CommitmentOpening
-	if k, ok := kappaTimesLambda.(poly2.PedersenCommitmentOpening); ok {
-		muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
-		muValue = muValue.Add(muValue, k[0])
-		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
-		muMask = muMask.Add(muMask, k[1])
-		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	k, ok = poly2.AsPedersenOpening(kappaTimesLambda)
+	if !ok {
+		return nil, errors.New("unexpected commitment type")
 	}
+	muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
+	muValue = muValue.Add(muValue, k[0])
+	muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
+	muMask = muMask.Add(muMask, k[1])
+	mu := poly2.PedersenCommitmentOpening{muValue, muMask}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
 		sigmaDenominator: mu,
-- 
2.43.0


From 47fc9d327985c39da7445050aca81bc3f4e601e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:16 +0000
Subject: [PATCH 37/45] fix: only the leftmost 256 bits of long message hashes
 are signed, as in standard ECDSA

---
 sign/sign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign/sign.go b/sign/sign.go
index ffc12c7..af0356d 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -15,6 +15,10 @@ func EcdsaConversion(pt curve.EccPoint) (curve.EccScalar, error) {
 }
 
 func ConvertHashToInteger(hashedMsg []byte, curveType curve.EccCurveType) (curve.EccScalar, error) {
+	// as in standard ECDSA, only the leftmost 256 bits of longer hashes are used
+	if size := len(curve.Scalar.Zero(curveType).Serialize()); len(hashedMsg) > size {
+		hashedMsg = hashedMsg[:size]
+	}
 	return curve.Scalar.FromBytesWide(curveType, hashedMsg)
 }
 
-- 
2.43.0


From 837a6340e4757acc217700762b58868b35c90319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:16 +0000
Subject: [PATCH 38/45] fix: key derivation uses the result for the next index
 when an index is invalid

---
 key/key_derivation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key/key_derivation.go b/key/key_derivation.go
index 9c45197..d4fabd5 100644
--- a/key/key_derivation.go
+++ b/key/key_derivation.go
@@ -84,7 +84,7 @@ func ckdpub(pk curve.EccPoint, chainKey []byte, index DerivationIndex) (curve.Ec
 	newChainKey := output[32:]
 	newKey := pk.Clone().AddPoints(pk, curve.Point.MulByG(keyOffset))
 	if !bytes.Equal(keyOffset.Serialize(), output[:32]) || newKey.IsInfinity() {
-		ckdpub(pk, chainKey, index.Next())
+		return ckdpub(pk, chainKey, index.Next())
 	}
 	return newKey, newChainKey, keyOffset, nil
 }
-- 
2.43.0


From 0e6dc4b2c1a529696e7a1ca840957c2e0c8ad9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 39/45] fix: combining signature shares refuses a threshold
 below one instead of crashing

---
 sign/combined_sig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sign/combined_sig.go b/sign/combined_sig.go
index eb1e88d..b46dc35 100644
--- a/sign/combined_sig.go
+++ b/sign/combined_sig.go
@@ -16,6 +16,9 @@ type ThresholdEcdsaCombinedSigInternal struct {
 }
 
 func NewThresholdEcdsaCombinedSigInternal(derivationPath *key.DerivationPath, hashedMsg []byte, randomness []byte, keyTranscript *dealings.IDkgTranscriptInternal, presigTranscript *dealings.IDkgTranscriptInternal, reconstructionThreshold int, sigShares *btree.Map[common.NodeIndex, *ThresholdEcdsaSigShareInternal], curveType curve.EccCurveType) (*ThresholdEcdsaCombinedSigInternal, error) {
+	if reconstructionThreshold < 1 {
+		return nil, errors.New("invalid reconstruction threshold")
+	}
 	if sigShares.Len() < reconstructionThreshold {
 		return nil, errors.New("insufficient dealings")
 	}
-- 
2.43.0


From 7b1224b258491fb921d40acbdcb567af8f02c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 40/45] fix: combining openings refuses mismatched dealer
 indices instead of crashing

---
 dealings/commitment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index c9a70b3..6e2b590 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -69,6 +69,9 @@ func (c commitmentOpening) FromDealings(verifiedDealings *btree.Map[common.NodeI
 func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, commitmentOpenings []poly.CommitmentOpening, transcriptCommitment CombinedCommitment, receiverIndex common.NodeIndex, curveType curve.EccCurveType) (poly.CommitmentOpening, error) {
 	var opening poly.CommitmentOpening
 
+	if len(nodeIndexOpenings) != len(commitmentOpenings) {
+		return nil, errors.New("number of dealers and openings do not match")
+	}
 	switch t := transcriptCommitment.(type) {
 	case *SummationCommitment:
 		combinedValue := curve.Scalar.Zero(curveType)
-- 
2.43.0


From ddbe8507f5b143a0737fa1628ad2c07f153eb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 41/45] fix: a transcript needs a positive threshold and at
 least one dealing

---
 dealings/transcript.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 06d8c56..0537b2b 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -23,6 +23,9 @@ type UnmaskedTimesMaskedTranscript struct {
 }
 
 func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitmentType, curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
+	if reconstructionThreshold < 1 {
+		return nil, errors.New("invalid reconstruction threshold")
+	}
 	for _, dealing := range verifiedDealings.Values() {
 		if dealing.Commitment.Type() != commitmentType || dealing.Commitment.Len() != reconstructionThreshold {
 			return nil, errors.New("unexpected commitment type")
@@ -62,6 +65,12 @@ func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitment
 }
 
 func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal], operationMode IDkgTranscriptOperationInternal) (*IDkgTranscriptInternal, error) {
+	if reconstructionThreshold < 1 {
+		return nil, errors.New("invalid reconstruction threshold")
+	}
+	if verifiedDealings.Len() == 0 {
+		return nil, errors.New("insufficient dealings")
+	}
 	for _, dealing := range verifiedDealings.Values() {
 		if len(dealing.Commitment.Points()) != reconstructionThreshold {
 			return nil, errors.New("unexpected commitment type")
-- 
2.43.0


From 7d5c54675dfb8825395ecd4f4aefcf077ae35073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 42/45] fix: a negative coefficient count is an error instead
 of a crash

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 6085f2c..275e0ef 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -44,7 +44,7 @@ func (polynomial) Random(curveType curve.EccCurveType, num int, rng rand.Rand) *
 }
 
 func (polynomial) RandomWithConstant(constant curve.EccScalar, num int, rng rand.Rand) (*Polynomial, error) {
-	if num == 0 {
+	if num <= 0 {
 		return nil, errors.New("Cannot have degree=0 polynomial with given constant")
 	}
 	curveType := constant.CurveType()
-- 
2.43.0


From b0c1ba302be81c7b46e0a2e64b1ed566ca2fd2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 43/45] fix: negative or overflowing expansion lengths are
 errors instead of crashes

---
 curve/hash_to_curve.go | 6 ++++++
 seed/xmd.go            | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/curve/hash_to_curve.go b/curve/hash_to_curve.go
index c0072ca..5411d23 100644
--- a/curve/hash_to_curve.go
+++ b/curve/hash_to_curve.go
@@ -106,6 +106,9 @@ func HashToField(count int, curve EccCurveType, input []byte, domainSeparator []
 	securityLevel := curve.SecurityLevel()
 	fieldLen := (pBits + securityLevel + 7) / 8
 	lenInBytes := count * fieldLen
+	if lenInBytes/fieldLen != count {
+		return nil, errors.New("too many field elements requested")
+	}
 	uniformBytes, err := seed.ExpandMessageXmd(input, domainSeparator, lenInBytes)
 	if err != nil {
 		return nil, err
@@ -126,6 +129,9 @@ func HashToScalar(count int, curve EccCurveType, input []byte, domainSeparator [
 	securityLevel := curve.SecurityLevel()
 	fieldLen := (sBits + securityLevel + 7) / 8
 	lenInBytes := count * fieldLen
+	if lenInBytes/fieldLen != count {
+		return nil, errors.New("too many scalars requested")
+	}
 	uniformBytes, err := seed.ExpandMessageXmd(input, domainSeparator, lenInBytes)
 	if err != nil {
 		return nil, err
diff --git a/seed/xmd.go b/seed/xmd.go
index 293b8ba..8e746e1 100644
--- a/seed/xmd.go
+++ b/seed/xmd.go
@@ -10,6 +10,9 @@ const (
 )
 
 func ExpandMessageXmd(msg []byte, domainSeparator []byte, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, errors.Errorf("Requested XMD output length %d is negative", length)
+	}
 	if length > maxLen {
 		return nil, errors.Errorf("Requested XMD output length %d too large (max: %d)", length, maxLen)
 	}
-- 
2.43.0


From 4917f64d660a7b25875f314081b27c41309b9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 44/45] fix: decoding an opening from bytes gives the opening
 instead of nothing

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 8d6ac9c..436eccf 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -132,8 +132,8 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	}
 	return nil, errors.New("unknown commitment type")
 }
-func (commitmentOpening) FromBytes(bytes []byte) (CommitmentOpening, error) {
-	return nil, nil
+func (c commitmentOpening) FromBytes(bytes []byte) (CommitmentOpening, error) {
+	return c.Deserialize(bytes)
 }
 func (s SimpleCommitmentOpening) Serialize() ([]byte, error) {
 	data, err := cbor.Marshal(s)
-- 
2.43.0


From ae28b306e9150661ddb05f613fce51f4e301faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 45/45] fix: dealer indices beyond 32 bits are bound in full by
 masks, PoP bases and complaints

The dealer index was cast to uint32 before it was hashed, so two dealers whose
indices agree mod 2^32 shared encryption masks, proof-of-possession bases and
complaint contexts. Hash it as a 64-bit integer; the encoding of smaller
indices does not change.
---
 complaints/complaints.go | 2 +-
 mega/mega.go             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/complaints/complaints.go b/complaints/complaints.go
index 793374f..0958225 100644
--- a/complaints/complaints.go
+++ b/complaints/complaints.go
@@ -63,7 +63,7 @@ func createProofAssocData(ad []byte, receiverIndex common.NodeIndex, dealerIndex
 	ro := ro2.NewRandomOracle("ic-crypto-tecdsa-complaint-proof-assoc-data")
 	ro.AddBytesString("associated_data", ad)
 	ro.AddUint32("receiver_index", uint32(receiverIndex))
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
+	ro.AddUint64("dealer_index", uint64(dealerIndex))
 	ro.AddPoint("receiver_public_key", publicKey.PublicPoint())
 	return ro.OutputByteString(32)
 }
diff --git a/mega/mega.go b/mega/mega.go
index b8d2cfc..88aa0b1 100644
--- a/mega/mega.go
+++ b/mega/mega.go
@@ -20,7 +20,7 @@ func megaHashToScalars(ctype MEGaCiphertextType, dealerIndex common.NodeIndex, r
 		count = 2
 	}
 	ro := ro2.NewRandomOracle(ctype.EncryptionDomainSep())
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
+	ro.AddUint64("dealer_index", uint64(dealerIndex))
 	ro.AddUint32("recipient_index", uint32(recipientIndex))
 	ro.AddBytesString("associated_data", associatedData)
 	ro.AddPoint("public_key", publicKey)
@@ -37,7 +37,7 @@ func megaHashToScalars(ctype MEGaCiphertextType, dealerIndex common.NodeIndex, r
 func ComputePopBase(ctype MEGaCiphertextType, curveType curve.EccCurveType, ad []byte, dealerIndex common.NodeIndex, ephemeralKey curve.EccPoint) (curve.EccPoint, error) {
 	ro := ro2.NewRandomOracle(ctype.PopBaseDomainSep())
 	ro.AddBytesString("associated_data", ad)
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
+	ro.AddUint64("dealer_index", uint64(dealerIndex))
 	ro.AddPoint("ephemeral_key", ephemeralKey)
 	return ro.OutputPoint(curveType)
 }
-- 
2.43.0

