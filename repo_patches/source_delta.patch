From 00402ec4080f9f678151428a48d1d7569b7b5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:34 +0000
Subject: [PATCH 01/34] fix: reject point encodings that are off the curve or
 not canonical

A compressed encoding whose x is not on the curve decoded to the identity, an
x at or above the field prime was reduced, and uncompressed coordinates were
not checked at all.
---
 curve/k256_point.go | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..574041a 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,6 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 	"math/bits"
 )
@@ -44,37 +45,59 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 	return e.fromEncodedPoint(ec)
 }
 
-func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
+// coordinate parses a big-endian coordinate, which must be below the field prime
+func (e EccK256Point) coordinate(b []byte) (*native.Field, error) {
+	v := new(big.Int).SetBytes(b)
+	f := fp.K256FpNew()
+	if v.Cmp(f.Params.BiModulus) >= 0 {
+		return nil, errors.New("invalid point, coordinate is not canonical")
+	}
+	return f.SetBigInt(v), nil
+}
 
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
+func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
+	x, err := e.coordinate(xb)
+	if err != nil {
+		return nil, err
+	}
+	y, err := e.coordinate(yb)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew()
 	value.X = x
 	value.Y = y
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("invalid point, not on the curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
+	x, err := e.coordinate(bytes)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then there is no point with this x-coordinate
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
-		// fix the sign
-		sigY := int(y.Bytes()[0] & 1)
-		if sigY != sign {
-			y.Neg(y)
-		}
-		value.X = x
-		value.Y = y
-		value.Z.SetOne()
+	if !wasQr {
+		return nil, errors.New("invalid point, not on the curve")
 	}
+	// fix the sign
+	sigY := int(y.Bytes()[0] & 1)
+	if sigY != sign {
+		y.Neg(y)
+	}
+	value.X = x
+	value.Y = y
+	value.Z.SetOne()
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
-- 
2.43.0


From 4b2357fad6d4d437edeca36c05f198e68f407ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 02/34] fix: decode tagged points from the bytes after the tag

DeserializeTagged passed the tag along with the point, so it never accepted a
tagged encoding, and an unknown tag gave a nil point without an error.
---
 curve/point.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..8351156 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,7 +101,10 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	if curve == EccCurveType(0) || FromTag(bytes[0]) != curve {
+		return nil, errors.New("invalid point, unexpected curve tag")
+	}
+	return p.Deserialize(curve, bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
 	if len(bytes) != curve.PointBytes() {
-- 
2.43.0


From 9ebaa2cc84971e93512c053d70bdc1bef75c020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:56 +0000
Subject: [PATCH 03/34] fix: refuse scalar encodings of the wrong length, curve
 or tag

Scalars were decoded from any number of bytes by dropping or padding bytes,
tagged scalars were decoded with their tag, and an unknown curve gave a nil
scalar without an error.
---
 curve/k256_scalar.go |  4 ++++
 curve/scalar.go      | 19 +++++++------------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..3a02aff 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar, unexpected length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..e13997b 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -47,27 +47,22 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid scalar")
 	}
-	var scalar EccScalar
-	var err error
-	switch EccCurveType(bytes[0]) {
-	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
-	}
-	return scalar, err
+	return s.Deserialize(FromTag(bytes[0]), bytes[1:])
 }
 
 func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid scalar")
 	}
-	var scalar EccScalar
-	var err error
 	switch curve {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes)
+		scalar, err := K256Scalar.Deserialize(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return scalar, nil
 	}
-	return scalar, err
+	return nil, errors.New("invalid scalar, unknown curve")
 }
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
-- 
2.43.0


From 6d837ccdfdc91c46fc0e7b64750aefef4b65fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 04/34] fix: decode CBOR scalars and points through the checked
 tagged decoders

An empty byte string panicked, the curve tag was ignored and the identity
point could not be decoded.
---
 curve/k256_point.go  | 4 ++--
 curve/k256_scalar.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 574041a..47c6c79 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -231,10 +231,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(K256, bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = tmp.(*Secp256k1Point).point
 	return nil
 }
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 3a02aff..2ed6057 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -141,11 +141,11 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Scalar.Deserialize(bytes[1:])
+	tmp, err := Scalar.DeserializeTagged(bytes)
 	if err != nil {
 		return err
 	}
-	s.scalar = tmp.scalar
+	s.scalar = tmp.(*Secp256k1Scalar).scalar
 	return nil
 }
 func (s Secp256k1Scalar) BigInt() *big.Int {
-- 
2.43.0


From 6519fc0638fbaf2a874bb179933cb9ed87110905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 05/34] fix: reject empty and unknown-tag point encodings,
 accept the identity tag

Empty input and unknown tags panicked, and the one-byte identity encoding
decoded to a nil point without an error.
---
 curve/encode.go     | 6 ++++++
 curve/k256_point.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..fb254be 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,13 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed, input is empty")
+	}
 	tag := Tag(input[0])
+	if !tag.IsIdentity() && !tag.IsCompressed() && !tag.IsCompact() && tag != Uncompressed {
+		return nil, errors.New("point decode failed, unknown tag")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
diff --git a/curve/k256_point.go b/curve/k256_point.go
index 47c6c79..f8d9f74 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -103,7 +103,7 @@ func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
-- 
2.43.0


From 50dcb69702086eb122ca936130e1976dfc2e12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:00 +0000
Subject: [PATCH 06/34] fix: size the uncompressed point encoding correctly

SerializeUncompressed panicked for every point but the identity.
---
 curve/k256_point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index f8d9f74..f2e2aa4 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -182,7 +182,11 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
+	size := s.CurveType().PointBytes()
+	if encode.Len() > size {
+		size = encode.Len()
+	}
+	result := make([]byte, size, size)
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From 1e7d3e7e96a2f64b6791fb5ad4a809a4fe8665bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 07/34] fix: print only the significant bytes of an encoded
 point

A compressed encoding made from affine coordinates printed its hidden y
coordinate as well, so the string could not be parsed back.
---
 curve/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve/encode.go b/curve/encode.go
index fb254be..2d86481 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -190,7 +190,7 @@ func (e EncodePoint32) AsBytes() []byte {
 }
 
 func (e EncodePoint32) ToString() string {
-	return hex.EncodeToString(e.bytes)
+	return hex.EncodeToString(e.AsBytes())
 }
 
 func (e EncodePoint32) IsCompact() bool {
-- 
2.43.0


From 4b7f3ad7c33aef1df22c73ab891c631d926a7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:43 +0000
Subject: [PATCH 08/34] fix: refuse field elements of the wrong length and
 reduce any wide input

Field elements longer than 32 bytes lost their leading bytes silently, wide
field input longer than 64 bytes was truncated and wide scalar input longer
than 64 bytes panicked.
---
 curve/k256_fe.go     | 7 +++++++
 curve/k256_scalar.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 6badaaa..22e889f 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -5,6 +5,7 @@ import (
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -34,6 +35,9 @@ func (e EccK256Field) FromHex(h string) *Secp256k1Field {
 }
 func (EccK256Field) FromBytes(bytes []byte) (*Secp256k1Field, error) {
 	var r [32]byte
+	if len(bytes) != len(r) {
+		return nil, errors.New("invalid field element, unexpected length")
+	}
 	copy(r[:], common.ReverseBytes(bytes[:]))
 	field, err := fp.K256FpNew().SetBytes(&r)
 	if err != nil {
@@ -45,6 +49,9 @@ func (EccK256Field) FromBytes(bytes []byte) (*Secp256k1Field, error) {
 }
 
 func (EccK256Field) FromBytesWide(bytes []byte) *Secp256k1Field {
+	if len(bytes) > 64 {
+		return EccK256Field{}.newField(new(big.Int).SetBytes(bytes))
+	}
 	var r [64]byte
 	copy(r[:], common.ReverseBytes(bytes[:]))
 	field := fp.K256FpNew().SetBytesWide(&r)
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 2ed6057..7045f4d 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -53,6 +53,11 @@ func (EccK256Scalar) FromUint64(n uint64) *Secp256k1Scalar {
 }
 
 func (EccK256Scalar) FromWideBytes(bytes []byte) *Secp256k1Scalar {
+	if len(bytes) > 64 {
+		return &Secp256k1Scalar{
+			scalar: fq.K256FqNew().SetBigInt(new(big.Int).SetBytes(bytes)),
+		}
+	}
 	var r [64]byte
 	copy(r[:len(bytes)], common.ReverseBytes(bytes))
 
-- 
2.43.0


From 5b750baf48ba8c2de5fc115459da6f6d29f1e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:45 +0000
Subject: [PATCH 09/34] fix: decide whether a scalar is high on its value

The comparison used Montgomery limbs, so about half of all signatures came
out with a high s and the verifier's malleability check was as arbitrary.
---
 curve/k256_scalar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 7045f4d..00e2d95 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -134,8 +134,8 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
-	return true
+	// compare the values: limbs are in Montgomery form and do not order like them
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
 	return cbor.Marshal(s.SerializeTagged())
-- 
2.43.0


From 556fa548ae6586d3b062db8258c87e241f28ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 10/34] fix: the inverse of zero is zero whatever the receiver
 held

Inverting zero left the receiver unchanged, while callers detect a failed
inversion by a zero result.
---
 curve/k256_fe.go     | 4 +++-
 curve/k256_scalar.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 22e889f..e48772d 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -140,7 +140,9 @@ func (s *Secp256k1Field) CAssign(other EccFieldElement, choice int) {
 }
 
 func (s *Secp256k1Field) Invert(other EccFieldElement) EccFieldElement {
-	s.field.Invert(other.(*Secp256k1Field).field)
+	if _, wasInverted := s.field.Invert(other.(*Secp256k1Field).field); !wasInverted {
+		s.field.SetZero()
+	}
 	return s
 }
 
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 00e2d95..64a7dcc 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -92,7 +92,9 @@ func (s *Secp256k1Scalar) Mul(lhs, rhs EccScalar) EccScalar {
 
 func (s *Secp256k1Scalar) Invert(other EccScalar) EccScalar {
 	o := other.(*Secp256k1Scalar)
-	s.scalar.Invert(o.scalar)
+	if _, wasInverted := s.scalar.Invert(o.scalar); !wasInverted {
+		s.scalar.SetZero()
+	}
 	return s
 }
 
-- 
2.43.0


From 61b1f3f80c0a0785192fb8b8ce9a279baac6e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:47 +0000
Subject: [PATCH 11/34] fix: return the scalar bytes that were computed

ToScalarBytes always returned nil, so converting an opening to bytes and back
panicked.
---
 curve/scalar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curve/scalar.go b/curve/scalar.go
index e13997b..8666d05 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -114,6 +114,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
-- 
2.43.0


From 48a97a605b6d733c15e0a0650caa2f8de75d7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 12/34] fix: serialise and decode commitment openings
 faithfully

Pedersen openings were labelled simple and decoded as a simple opening of
their first scalar, and decoding ignored missing or malformed scalars.
---
 poly/commitment.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..a13b799 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -58,21 +58,41 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			values, err := deserializeK256Scalars(c.Message, 1)
+			if err != nil {
+				return nil, err
+			}
+			return &SimpleCommitmentOpening{values[0]}, nil
 		}
 
 	case Pedersen:
 		switch c.CurveType {
 		case curve.K256:
-			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			values, err := deserializeK256Scalars(c.Message, 2)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitmentOpening{values[0], values[1]}, nil
 		}
 	}
 	return nil, errors.New("unknown commitment type")
 }
+// deserializeK256Scalars decodes a CBOR array of exactly num scalars
+func deserializeK256Scalars(data []byte, num int) ([]*curve.Secp256k1Scalar, error) {
+	var values []*curve.Secp256k1Scalar
+	if err := cbor.Unmarshal(data, &values); err != nil {
+		return nil, err
+	}
+	if len(values) != num {
+		return nil, errors.New("invalid opening, unexpected number of scalars")
+	}
+	for _, v := range values {
+		if v == nil {
+			return nil, errors.New("invalid opening, missing scalar")
+		}
+	}
+	return values, nil
+}
 func (commitmentOpening) FromBytes(bytes []byte) (CommitmentOpening, error) {
 	return nil, nil
 }
@@ -102,7 +122,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From 5d586a4debdba15ba9f5acc4b8467746035ff348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:49 +0000
Subject: [PATCH 13/34] fix: decode both kinds of commitment and refuse empty
 or null points

---
 poly/commitment.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index a13b799..ec32dfd 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -427,18 +427,41 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			var ps []*curve.Secp256k1Point
-			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+			points, err := deserializeK256Points(c.Message)
+			if err != nil {
 				return nil, err
 			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
-			}
 			return &SimpleCommitment{points: points}, nil
 		}
 	case Pedersen:
+		switch c.CurveType {
+		case curve.K256:
+			points, err := deserializeK256Points(c.Message)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitment{points: points}, nil
+		}
 	}
 	return nil, errors.New("invalid commitment")
 
 }
+
+// deserializeK256Points decodes a CBOR array of at least one point
+func deserializeK256Points(data []byte) ([]curve.EccPoint, error) {
+	var ps []*curve.Secp256k1Point
+	if err := cbor.Unmarshal(data, &ps); err != nil {
+		return nil, err
+	}
+	if len(ps) == 0 {
+		return nil, errors.New("invalid commitment, no points")
+	}
+	points := make([]curve.EccPoint, len(ps), len(ps))
+	for i := range points {
+		if ps[i] == nil {
+			return nil, errors.New("invalid commitment, missing point")
+		}
+		points[i] = ps[i]
+	}
+	return points, nil
+}
-- 
2.43.0


From a9907e774ce463310a07a593effa2f1da1b89f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 14/34] fix: scale the operand of MulScalar, not the receiver

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..d36730d 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -124,7 +124,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From 0c2972e098f55aac2f9f27074dbc511ccd261796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:52 +0000
Subject: [PATCH 15/34] fix: keep the interpolation base when a sample already
 lies on the polynomial

---
 poly/poly.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index d36730d..e1781f3 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -181,8 +181,8 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		// the base itself stays unscaled, diff may be zero
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 2aa42002d5d949a69706e8ef4ef4a53908e85c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 16/34] fix: refuse to commit to a polynomial of too high a
 degree

---
 poly/commitment.go |  4 ++--
 poly/poly.go       | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index ec32dfd..0600df2 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -160,7 +160,7 @@ func (simpleCommitment) New(points []curve.EccPoint) *SimpleCommitment {
 	return &SimpleCommitment{points: points}
 }
 func (s simpleCommitment) Create(poly *Polynomial, num int) (*SimpleCommitment, error) {
-	if poly.NonZeroCoefficients() > num {
+	if poly.significantCoefficients() > num {
 		return nil, errors.New("Polynomial has more coefficients than expected")
 	}
 	points := make([]curve.EccPoint, num, num)
@@ -281,7 +281,7 @@ func (pedersenCommitment) New(points []curve.EccPoint) *PedersenCommitment {
 }
 
 func (p pedersenCommitment) Create(values *Polynomial, masking *Polynomial, num int) (*PedersenCommitment, error) {
-	if values.NonZeroCoefficients() > num || masking.NonZeroCoefficients() > num {
+	if values.significantCoefficients() > num || masking.significantCoefficients() > num {
 		return nil, errors.New("Polynomial has more coefficients than expected")
 	}
 	points := make([]curve.EccPoint, num, num)
diff --git a/poly/poly.go b/poly/poly.go
index e1781f3..9f19d00 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -82,6 +82,16 @@ func (p Polynomial) NonZeroCoefficients() int {
 	}
 	return len(p.coefficients) - zeros
 }
+
+// significantCoefficients returns the number of coefficients up to and including the last non-zero one
+func (p Polynomial) significantCoefficients() int {
+	for i := len(p.coefficients); i > 0; i-- {
+		if p.coefficients[i-1].IsZero() != 1 {
+			return i
+		}
+	}
+	return 0
+}
 func (p Polynomial) IsZero() int {
 	flag := 0
 	if p.NonZeroCoefficients() == 0 {
-- 
2.43.0


From e7f77990b5641f9dc7cf69b14033a5007004ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:53 +0000
Subject: [PATCH 17/34] fix: check openings of the wrong kind and deserialised
 openings without panicking

---
 poly/commitment.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 0600df2..67f1167 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -39,6 +39,34 @@ type commitmentOpening struct {
 type SimpleCommitmentOpening [1]curve.EccScalar
 type PedersenCommitmentOpening [2]curve.EccScalar
 
+// AsSimpleOpening returns the simple opening held by opening, which may also be a
+// pointer to one (as Deserialize returns it); false if opening is of another kind
+func AsSimpleOpening(opening CommitmentOpening) (SimpleCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case SimpleCommitmentOpening:
+		return o, true
+	case *SimpleCommitmentOpening:
+		if o != nil {
+			return *o, true
+		}
+	}
+	return SimpleCommitmentOpening{}, false
+}
+
+// AsPedersenOpening returns the pedersen opening held by opening, which may also be a
+// pointer to one (as Deserialize returns it); false if opening is of another kind
+func AsPedersenOpening(opening CommitmentOpening) (PedersenCommitmentOpening, bool) {
+	switch o := opening.(type) {
+	case PedersenCommitmentOpening:
+		return o, true
+	case *PedersenCommitmentOpening:
+		if o != nil {
+			return *o, true
+		}
+	}
+	return PedersenCommitmentOpening{}, false
+}
+
 type commitmentOpeningCbor struct {
 	CurveType  curve.EccCurveType
 	CommitType PolynomialCommitmentType
@@ -262,7 +290,10 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
+	o, ok := AsSimpleOpening(opening)
+	if !ok {
+		return false
+	}
 	return s.checkOpening(evalPoint, o[0])
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
@@ -384,7 +415,10 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
+	o, ok := AsPedersenOpening(opening)
+	if !ok {
+		return false
+	}
 	return p.checkOpening(evalPoint, o[0], o[1])
 }
 
-- 
2.43.0


From 43a470da47b36af1457cf9b191830d6bda6881b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 18/34] fix: recover and combine shares from deserialised
 openings too

---
 dealings/commitment.go | 29 +++++++++++++----------------
 dealings/transcript.go | 20 +++++++++-----------
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index e7bfb86..c9a70b3 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -74,13 +74,12 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 		combinedValue := curve.Scalar.Zero(curveType)
 		combinedMask := curve.Scalar.Zero(curveType)
 		for _, opening := range commitmentOpenings {
-			switch o := opening.(type) {
-			case poly.PedersenCommitmentOpening:
-				combinedValue = combinedValue.Add(combinedValue, o[0])
-				combinedMask = combinedMask.Add(combinedMask, o[1])
-			default:
+			o, ok := poly.AsPedersenOpening(opening)
+			if !ok {
 				return nil, errors.New("unexpected commitment type")
 			}
+			combinedValue = combinedValue.Add(combinedValue, o[0])
+			combinedMask = combinedMask.Add(combinedMask, o[1])
 		}
 		opening = poly.PedersenCommitmentOpening([2]curve.EccScalar{combinedValue, combinedMask})
 	case *InterpolationCommitment:
@@ -90,13 +89,12 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			values := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
-				case poly.SimpleCommitmentOpening:
-					xValues = append(xValues, dealerIndex)
-					values = append(values, o[0])
-				default:
+				o, ok := poly.AsSimpleOpening(opening)
+				if !ok {
 					return nil, errors.New("unexpected commitment type")
 				}
+				xValues = append(xValues, dealerIndex)
+				values = append(values, o[0])
 			}
 
 			coefficients, err := poly.Lagrange.AtZero(curveType, xValues)
@@ -115,14 +113,13 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			masks := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
-				case poly.PedersenCommitmentOpening:
-					xValues = append(xValues, dealerIndex)
-					values = append(values, o[0])
-					masks = append(masks, o[1])
-				default:
+				o, ok := poly.AsPedersenOpening(opening)
+				if !ok {
 					return nil, errors.New("unexpected commitment type")
 				}
+				xValues = append(xValues, dealerIndex)
+				values = append(values, o[0])
+				masks = append(masks, o[1])
 			}
 			coefficients, err := poly.Lagrange.AtZero(curveType, xValues)
 			if err != nil {
diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..74b0a1d 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -149,14 +149,13 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		xValues := make([]common.NodeIndex, 0, openings.Len())
 		values := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
-			case poly.SimpleCommitmentOpening:
-				xValues = append(xValues, receiverIndex)
-				values = append(values, o[0])
-			case poly.PedersenCommitmentOpening:
+			o, ok := poly.AsSimpleOpening(opening)
+			if !ok {
 				err = errors.New("unexpected commitment type")
 				return false
 			}
+			xValues = append(xValues, receiverIndex)
+			values = append(values, o[0])
 			return true
 		})
 		if err != nil {
@@ -176,15 +175,14 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		values := make([]curve.EccScalar, 0, openings.Len())
 		masks := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
-			case poly.PedersenCommitmentOpening:
-				xValues = append(xValues, receiverIndex)
-				values = append(values, o[0])
-				masks = append(masks, o[1])
-			case poly.SimpleCommitmentOpening:
+			o, ok := poly.AsPedersenOpening(opening)
+			if !ok {
 				err = errors.New("unexpected commitment type")
 				return false
 			}
+			xValues = append(xValues, receiverIndex)
+			values = append(values, o[0])
+			masks = append(masks, o[1])
 			return true
 		})
 		if err != nil {
-- 
2.43.0


From de99328d81b54e11e4998aa9bab5580d2cb6edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 19/34] fix: refuse to make a signature share from openings of
 the wrong kind

---
 sign/share.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..9941894 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -26,26 +26,32 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
 	var lambdaValue curve.EccScalar
 	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
+	if l, ok := poly2.AsPedersenOpening(lambda); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
-	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.AsPedersenOpening(keyTimesLambda); ok {
 		nuValue := theta.Clone().Mul(theta, lambdaValue)
 		nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
 		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 
 	var mu poly2.CommitmentOpening
-	if k, ok := kappaTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.AsPedersenOpening(kappaTimesLambda); ok {
 		muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
 		muValue = muValue.Add(muValue, k[0])
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
 		muMask = muMask.Add(muMask, k[1])
 		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
-- 
2.43.0


From 10d5fb78a2affa776a7b85ed8b278c38a3edb725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:55 +0000
Subject: [PATCH 20/34] fix: compare signature shares with the signer's
 commitments

---
 sign/share.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index 9941894..e759c32 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -75,18 +75,22 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.AsPedersenOpening(t.sigmaNumerator); ok {
 		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
 			return errors.New("invalid commitment")
 		}
+	} else {
+		return errors.New("unexpected commitment type")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
+	if k, ok := poly2.AsPedersenOpening(t.sigmaDenominator); ok {
+		if sigmaDen.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
 			return errors.New("invalid commitment")
 		}
+	} else {
+		return errors.New("unexpected commitment type")
 	}
 	return nil
 }
-- 
2.43.0


From bf04da15a17494a992d2ec70f2f214ead90926d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 21/34] fix: refuse a product dealing without a proof instead
 of panicking

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..d8c1c07 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -164,7 +164,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From 89c5ff2ee0111ba76aba66ccf50c0d5c4749b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:54 +0000
Subject: [PATCH 22/34] fix: make the secret shares of a simple opening usable
 for a dealing

---
 dealings/secret_shares.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..00bc6f3 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unexpected commitment type")
 	}
 	return share, nil
 }
-- 
2.43.0


From 36c262471b466c46b7b1a2481abf404baae1b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 23/34] fix: refuse to create a dealing of an unknown kind or
 without its proof

---
 dealings/dealings.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index d8c1c07..412a608 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -108,11 +108,19 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 			return nil, err
 		}
 		mask, err := poly2.Poly.RandomWithConstant(productMasking, numCoefficients, polyRng)
+		if err != nil {
+			return nil, err
+		}
 		if ciphertext, commitment, err = EncryptAndCommitPairPolynomial(values, mask, numCoefficients, recipients, dealerIndex, ad, megaSeed); err != nil {
 			return nil, err
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
+		if err != nil {
+			return nil, err
+		}
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unknown kind of secret shares")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
-- 
2.43.0


From f2ab249122812a53651a6b31939559b87988c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 24/34] fix: refuse to create a transcript for an unknown
 operation

---
 dealings/transcript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 74b0a1d..43be01b 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -118,6 +118,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unknown transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From ae6b0ef7a3cb26a946d3f57afaa166dcf6b58274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 25/34] fix: refuse to interpolate commitments of the wrong
 kind into a transcript

---
 dealings/transcript.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 43be01b..ce257d5 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -25,6 +25,11 @@ type UnmaskedTimesMaskedTranscript struct {
 func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitmentType, curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
 	commitments := make([]poly.PolynomialCommitment, 0, verifiedDealings.Len())
 	indexes := make([]common.NodeIndex, 0, verifiedDealings.Len())
+	for _, dealing := range verifiedDealings.Values() {
+		if err := dealing.Commitment.VerifyIs(commitmentType, curveType); err != nil {
+			return nil, err
+		}
+	}
 	verifiedDealings.Scan(func(index common.NodeIndex, dealing *IDkgDealingInternal) bool {
 		indexes = append(indexes, index)
 		commitments = append(commitments, dealing.Commitment.Clone())
-- 
2.43.0


From f91ebe040d68e20f8a0ab2e813d03f60d6334e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 26/34] fix: give product proofs their own domain separator

---
 zk/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zk/product.go b/zk/product.go
index 62d5979..cee2d10 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -89,7 +89,7 @@ func (p *proofOfProductInstance) Create(seed *seed.Seed, lhs curve.EccScalar, rh
 }
 
 func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
-	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
+	ro := ro2.NewRandomOracle(ProofOfProductDst)
 	ro.AddBytesString("associated_data", associatedData)
 	ro.AddPoint("instance_g", p.g)
 	ro.AddPoint("instance_h", p.h)
-- 
2.43.0


From e1ae3308ff86155d84e7f721696b971e21db8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:58 +0000
Subject: [PATCH 27/34] fix: bind random oracle inputs longer than 255 bytes

---
 ro/ro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..0b83761 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,7 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From df68143b606a2da8ca90fbb0c31c507e33272e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:58 +0000
Subject: [PATCH 28/34] fix: compare a transcript with the other transcript

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From 5c31de07010aa2e1904bebfa73a0e7ce008f6b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 29/34] fix: fill buffers with the key stream whatever they
 held

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From 02bf22f0f2baa1f5e23b73dccc8c9bce65412d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 30/34] fix: convert hashes longer than the group order as
 ECDSA does

---
 sign/sign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign/sign.go b/sign/sign.go
index ffc12c7..2ffc595 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -15,6 +15,10 @@ func EcdsaConversion(pt curve.EccPoint) (curve.EccScalar, error) {
 }
 
 func ConvertHashToInteger(hashedMsg []byte, curveType curve.EccCurveType) (curve.EccScalar, error) {
+	// ECDSA signs the leftmost bits of the hash, as many as the group order has
+	if len(hashedMsg) > curveType.ScalarBytes() {
+		hashedMsg = hashedMsg[:curveType.ScalarBytes()]
+	}
 	return curve.Scalar.FromBytesWide(curveType, hashedMsg)
 }
 
-- 
2.43.0


From 3d3c41dad1125025603f54329dd3b2f9533645c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:05 +0000
Subject: [PATCH 31/34] fix: add and subtract points when the receiver is the
 second operand

---
 curve/k256_point.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index f2e2aa4..72806d4 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -125,14 +125,16 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Add(l.point, r.point)
+	// the sum may not be computed in place: s may be rhs
+	s.point.Set(k256.K256PointNew().Add(l.point, r.point))
 	return s
 }
 
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Sub(l.point, r.point)
+	// the difference may not be computed in place: s may be rhs
+	s.point.Set(k256.K256PointNew().Sub(l.point, r.point))
 	return s
 }
 
-- 
2.43.0


From 42be7272df000bdf90fb8af058138047e5788422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 32/34] fix: check unmasked resharing dealings against combined
 commitments too

---
 dealings/dealings.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 412a608..04880bb 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -164,13 +164,8 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
 	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
-- 
2.43.0


From a7f059f41907480a02bc540e3eeaaca86a6f3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 33/34] fix: clone the parts of a product proof too

---
 zk/product.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zk/product.go b/zk/product.go
index cee2d10..2c00978 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -115,8 +115,8 @@ func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, pr
 }
 func (p *ProofOfProduct) Clone() *ProofOfProduct {
 	return &ProofOfProduct{
-		challenge: p.challenge,
-		response1: p.response1,
-		response2: p.response2,
+		challenge: p.challenge.Clone(),
+		response1: p.response1.Clone(),
+		response2: p.response2.Clone(),
 	}
 }
-- 
2.43.0


From ad086d69efa19a04dfeb025d3f022c0d5d91cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:51 +0000
Subject: [PATCH 34/34] fix: add a list of points to an oracle as a whole or
 not at all

---
 ro/ro.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ro/ro.go b/ro/ro.go
index 0b83761..8de1a98 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -62,8 +62,14 @@ func (r *RandomOracle) AddPoint(name string, pt curve.EccPoint) error {
 }
 
 func (r *RandomOracle) AddPoints(name string, pts []curve.EccPoint) error {
+	size := r.inputSize
 	for i, pt := range pts {
 		if err := r.AddPoint(fmt.Sprintf("%s[%d]", name, i), pt); err != nil {
+			// a list is added as a whole or not at all
+			for j := 0; j < i; j++ {
+				r.inputs.Delete(fmt.Sprintf("%s[%d]", name, j))
+			}
+			r.inputSize = size
 			return err
 		}
 	}
-- 
2.43.0

