package checks

import (
	"bytes"
	"encoding/hex"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/fxamacker/cbor/v2"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP18(t *testing.T) {
	Run(t, "P18", []Sub{
		{"roundtrip", "a drawn point in a drawn projective form, encoded and decoded in every format; all count", 15000, pointRoundTrip},
		{"inplace", "a point object changed in place several times (negation, sums, doubling, assignment, decoding into it), encoded in every format after each; all count", 3000, pointInPlace},
		{"decode", "byte strings around the valid encodings of points (lengths, tags, coordinates above the prime, off the curve, altered bits); all count", 72000, pointDecode},
		{"coords", "pairs of field elements, on the curve or not; all count", 24000, pointCoords},
		{"encoded", "the encoded-point type: every valid tag, its accessors and compression; all count", 18000, encodedPoint},
	})
}

func pointRoundTrip(c *C) {
	p := AnyPoint(c, "p")
	c.Key(p)
	c.Note("%s", p)
	c.Label("identity=%v", p.Inf())
	l := libPoint(c, p)
	if !bytes.Equal(l.Serialize(), p.Bytes()) {
		c.Fatalf("Serialize %x, want %s", l.Serialize(), p)
	}
	if !bytes.Equal(l.SerializeTagged(), append([]byte{1}, p.Bytes()...)) {
		c.Fatalf("SerializeTagged %x, want 01%s", l.SerializeTagged(), p)
	}
	if un := l.SerializeUncompressed(); !bytes.Equal(un, p.Uncompressed()) {
		c.Fatalf("SerializeUncompressed %x, want %x", un, p.Uncompressed())
	}
	c.Owned(l.Serialize(), l.SerializeTagged(), l.SerializeUncompressed())
	d, err := curve.Point.Deserialize(K, l.Serialize())
	Must(c, err, "Deserialize")
	checkPoint(c, d, p, "compressed")
	d, err = curve.Point.DeserializeTagged(K, l.SerializeTagged())
	Must(c, err, "DeserializeTagged")
	checkPoint(c, d, p, "tagged")
	if !p.Inf() {
		d, err = curve.Point.DeserializeAnyFormat(K, l.SerializeUncompressed())
		Must(c, err, "uncompressed")
		checkPoint(c, d, p, "uncompressed")
		d, err = curve.Point.DeserializeAnyFormat(K, l.Serialize())
		Must(c, err, "any format")
		checkPoint(c, d, p, "any format")
		d, err = curve.Point.FromFieldElems(l.AffineX(), l.AffineY())
		Must(c, err, "FromFieldElems")
		checkPoint(c, d, p, "FromFieldElems")
	}
	enc, err := cbor.Marshal(l)
	Must(c, err, "cbor")
	out := libPoint(c, AnyPoint(c, "old")).(*curve.Secp256k1Point)
	Must(c, cbor.Unmarshal(enc, out), "uncbor")
	checkPoint(c, out, p, "cbor")
	pk := mega.NewMEGaPublicKey(l)
	k, err := mega.PublicKey.Deserialize(K, pk.Serialize())
	Must(c, err, "public key")
	checkPoint(c, k.PublicPoint(), p, "public key")
	checkPoint(c, l, p, "the point afterwards")
}

// pointInPlace encodes one object again after every change
func pointInPlace(c *C) {
	p := AnyPoint(c, "p")
	l := libPoint(c, p)
	log := p.String()
	n := Int(c, 2, 6, "steps")
	for k := 0; k <= n; k++ {
		if k > 0 {
			q := AnyPoint(c, "q")
			if OneIn(c, 3, "same") {
				q = p
			}
			lq := Pt(q)
			switch Int(c, 0, 7, "op") {
			case 0, 1:
				l.SubPoints(curve.Point.Identity(K), l)
				p = p.Neg()
				log += " neg"
			case 2:
				l.AddPoints(l, lq)
				p = p.Add(q)
				log += " + " + q.String()
			case 3:
				l.Double(l)
				p = p.Add(p)
				log += " doubled"
			case 4:
				l.Assign(lq)
				p = q
				log += " := " + q.String()
			case 5:
				enc, _ := cbor.Marshal(lq)
				Must(c, cbor.Unmarshal(enc, l), "uncbor")
				p = q
				log += " decoded " + q.String()
			case 6:
				l.SubPoints(l, lq)
				p = p.Sub(q)
				log += " - " + q.String()
			case 7: // the object is replaced by one with the same or the opposite value
				p = p.Neg()
				l = Pt(p)
				log += " replaced by opposite"
			}
		}
		for _, f := range Shuffle(c, []int{0, 1, 2, 3}, "order")[:Int(c, 1, 4, "encodings")] {
			var got, want []byte
			switch f {
			case 0:
				got, want = l.Serialize(), p.Bytes()
			case 1:
				got, want = l.SerializeTagged(), append([]byte{1}, p.Bytes()...)
			case 2:
				got, want = l.SerializeUncompressed(), p.Uncompressed()
			case 3:
				var err error
				got, err = cbor.Marshal(l)
				Must(c, err, "cbor")
				want = append([]byte{0x58, 34, 1}, p.Bytes()...)
			}
			if !bytes.Equal(got, want) {
				c.Fatalf("%s: encoding %d is %x, want %x", log, f, got, want)
			}
			if Bool(c, "kept") {
				c.Owned(got)
				continue
			}
			for i := range got { // nothing keeps what was given out
				got[i] ^= 0xa5
			}
		}
	}
	checkPoint(c, l, p, log)
	c.Key(log)
	c.Note("%s", log)
}

// lent gives f a copy of b, which it may not change, and changes it afterwards
func lent(c *C, b []byte, f func([]byte)) {
	in := append([]byte{}, b...)
	f(in)
	if !bytes.Equal(in, b) {
		c.Fatalf("decoding changed its input %x to %x", b, in)
	}
	for i := range in {
		in[i] ^= 0xa5
	}
}

// pointInput draws bytes to decode, from valid to hopeless
func pointInput(c *C) []byte {
	p := AnyPoint(c, "p")
	if Bool(c, "random point") {
		p = ref.MulG(RandScalar(c, "k"))
	}
	comp, unc := p.Bytes(), p.Uncompressed()
	switch Int(c, 0, 15, "in") {
	case 0:
		return comp
	case 1:
		return unc
	case 2: // altered bit
		return AlterBytes(c, comp, "alt")
	case 3:
		return AlterBytes(c, unc, "alt")
	case 4: // any tag
		comp[0] = byte(Int(c, 0, 8, "tag"))
		return comp
	case 5:
		unc[0] = byte(Int(c, 0, 8, "tag"))
		return unc
	case 6: // x not below the prime
		x := new(big.Int).Add(ref.P, big.NewInt(int64(Int(c, 0, 977, "d"))))
		return append([]byte{byte(2 + Int(c, 0, 1, "o"))}, ref.B32(x)...)
	case 7: // a valid point with a coordinate raised by the prime where that fits
		for i := 0; ; i++ {
			x := big.NewInt(int64(Int(c, 0, 2000, "x") + i))
			q, ok := ref.LiftX(x, Bool(c, "odd"))
			if !ok {
				continue
			}
			X := new(big.Int).Add(q.X, ref.P)
			if Bool(c, "unc") {
				return append(append([]byte{4}, ref.B32(X)...), ref.B32(q.Y)...)
			}
			return append([]byte{byte(2 + q.Y.Bit(0))}, ref.B32(X)...)
		}
	case 8: // a y that fits with the wrong sign, or zero coordinates
		if p.Inf() {
			return append([]byte{4}, make([]byte, 64)...)
		}
		y := ref.NegM(p.Y, ref.P)
		return append(append([]byte{4}, ref.B32(p.X)...), ref.B32(y)...)
	case 9: // off the curve
		return append(append([]byte{4}, ref.B32(FieldEl(c, "x"))...), ref.B32(FieldEl(c, "y"))...)
	case 10: // x without a point, about half of the time
		return append([]byte{byte(2 + Int(c, 0, 1, "o"))}, ref.B32(FieldEl(c, "x"))...)
	case 11: // all zero but one byte
		return Content(c, Pick(c, []int{1, 32, 33, 34, 64, 65, 66}, "l"), "z")
	case 12: // identity-like
		return make([]byte, Pick(c, []int{0, 1, 2, 32, 33, 34, 64, 65, 66}, "l"))
	case 13:
		return comp[:Int(c, 0, len(comp), "cut")]
	case 14: // a point of another curve y² = x³ + b
		x, y := FieldEl(c, "x"), FieldEl(c, "y")
		if p.Inf() {
			return ref.B32(x)
		}
		_ = y
		return append(append([]byte{4}, ref.B32(p.X)...), ref.B32(ref.AddM(p.Y, big.NewInt(1), ref.P))...)
	}
	b := Bytes(c, 100, "b")
	if len(b) > 0 && Bool(c, "tagit") {
		b[0] = byte(Int(c, 0, 6, "tag"))
	}
	return b
}

func pointDecode(c *C) {
	b := pointInput(c)
	keep := append([]byte{}, b...)
	c.Key(b)
	c.Note("decode %x", b)
	want, ok := ref.Decode(b)
	c.Label("valid=%v len=%d", ok, len(b))

	// compressed form only
	var p curve.EccPoint
	var err error
	lent(c, b, func(b []byte) { p, err = curve.Point.Deserialize(K, b) })
	if ok && len(b) == 33 {
		Must(c, err, "Deserialize %x", b)
		checkPoint(c, p, want, "Deserialize")
	} else if err == nil {
		c.Fatalf("Deserialize accepted %x as %x", b, p.Serialize())
	}
	// a public key is the same
	var pk *mega.MEGaPublicKey
	lent(c, b, func(b []byte) { pk, err = mega.PublicKey.Deserialize(K, b) })
	if ok && len(b) == 33 {
		Must(c, err, "public key %x", b)
		checkPoint(c, pk.PublicPoint(), want, "public key")
	} else if err == nil {
		c.Fatalf("public key accepted %x", b)
	}
	if e := mega.VerifyMegaPublicKey(K, b); (e == nil) != (ok && len(b) == 33) {
		c.Fatalf("VerifyMegaPublicKey(%x): %v", b, e)
	}
	// any format
	for i := 0; i < 2; i++ {
		var err error
		if i == 0 {
			lent(c, b, func(b []byte) { p, err = curve.Point.DeserializeAnyFormat(K, b) })
		} else {
			var kp *curve.Secp256k1Point
			lent(c, b, func(b []byte) { kp, err = curve.K256Point.Deserialize(b) })
			p = kp
		}
		switch {
		case len(b) == 33 && b[0] == 0: // the padded identity, compressed format only
			if err == nil && !p.IsInfinity() {
				c.Fatalf("any format decoded %x to %x", b, p.Serialize())
			}
			if err == nil && !ok {
				c.Fatalf("any format accepted %x", b)
			}
		case len(b) == 1 && b[0] == 0: // SEC1 identity
			if err == nil && !p.IsInfinity() {
				c.Fatalf("any format decoded 00 to %x", p.Serialize())
			}
		case len(b) == 33 && b[0] == 5: // compact: the point with that x, or refused
			if err == nil {
				q := PV(p)
				if q.Inf() || q.X.Cmp(new(big.Int).SetBytes(b[1:])) != 0 {
					c.Fatalf("any format decoded %x to %s", b, q)
				}
			}
		case ok:
			Must(c, err, "any format %x", b)
			checkPoint(c, p, want, "any format")
		default:
			if err == nil {
				c.Fatalf("any format accepted %x as %x", b, p.Serialize())
			}
		}
	}
	// tagged and self-describing
	tag := byte(1)
	if OneIn(c, 4, "tagged wrong") {
		tag = byte(Int(c, 0, 255, "tag"))
	}
	tb := append([]byte{tag}, b...)
	if OneIn(c, 10, "notag") {
		tb = b
	}
	tok := false
	var tw ref.Pt
	if len(tb) == 34 && tb[0] == 1 {
		tw, tok = ref.Decode(tb[1:])
	}
	lent(c, tb, func(tb []byte) { p, err = curve.Point.DeserializeTagged(K, tb) })
	if tok {
		Must(c, err, "DeserializeTagged %x", tb)
		checkPoint(c, p, tw, "DeserializeTagged")
	} else if err == nil {
		c.Fatalf("DeserializeTagged accepted %x", tb)
	}
	enc, _ := cbor.Marshal(tb)
	out := Pt(ref.G()).(*curve.Secp256k1Point)
	lent(c, enc, func(enc []byte) { err = cbor.Unmarshal(enc, out) })
	if tok {
		Must(c, err, "CBOR %x", tb)
		checkPoint(c, out, tw, "CBOR")
	} else if err == nil {
		c.Fatalf("CBOR accepted %x", tb)
	}
	if ct := curve.EccCurveType(Pick(c, []int{-1, 0, 2, 3}, "ct")); true {
		if p, err := curve.Point.Deserialize(ct, b); err == nil && p != nil {
			c.Fatalf("curve %d accepted %x", ct, b)
		}
		if _, err := curve.Point.DeserializeTagged(ct, tb); err == nil {
			c.Fatalf("curve %d accepted tagged %x", ct, tb)
		}
	}
	if !bytes.Equal(b, keep) {
		c.Fatalf("decoding changed its input")
	}
}

func pointCoords(c *C) {
	x, y := FieldEl(c, "x"), FieldEl(c, "y")
	switch Int(c, 0, 3, "on") {
	case 0, 1:
		p := NonIdPoint(c, "p")
		x, y = p.X, p.Y
	case 2:
		p := NonIdPoint(c, "p")
		x, y = p.X, ref.AddM(p.Y, big.NewInt(int64(Int(c, 1, 3, "d"))), ref.P)
	}
	on := ref.Pt{X: x, Y: y}.OnCurve()
	c.Key(x, y)
	c.Label("on=%v", on)
	c.Note("(%x, %x)", x, y)
	fx, fy := FE(x), FE(y)
	p, err := curve.Point.FromFieldElems(fx, fy)
	if on {
		Must(c, err, "FromFieldElems")
		checkPoint(c, p, ref.Pt{X: x, Y: y}, "FromFieldElems")
	} else if err == nil {
		c.Fatalf("(%x, %x) accepted", x, y)
	}
	checkField(c, fx, x, "x after")
	checkField(c, fy, y, "y after")
}

func encodedPoint(c *C) {
	p := NonIdPoint(c, "p")
	x, y := ref.B32(p.X), ref.B32(p.Y)
	form := Int(c, 0, 5, "form")
	c.Key(p, form)
	c.Note("form %d of %s", form, p)
	odd := p.Y.Bit(0) == 1
	var e curve.EncodePoint
	var err error
	var want []byte
	switch form {
	case 0:
		want = p.Bytes()
	case 1:
		want = p.Uncompressed()
	case 2:
		want = p.Bytes()
		if Bool(c, "uncompressed") {
			want = p.Uncompressed()
		}
		lent(c, want, func(in []byte) { e, err = curve.Encode.FromBytes(in) })
	case 3:
		e, err = curve.Encode.FromStr(hex.EncodeToString(p.Uncompressed()))
		want = p.Uncompressed()
	case 4:
		want = p.Uncompressed()
		lent(c, want[1:], func(in []byte) { e = curve.Encode.FromUnTaggedBytes(in) })
	case 5:
		e = curve.Encode.ConditionalSelect(curve.Encode.FromAffineCoordinates(x, y, true), curve.Encode.FromAffineCoordinates(x, y, false), Int(c, 0, 1, "choice"))
		want = p.Bytes()
		if e.Tag() == curve.Uncompressed {
			want = p.Uncompressed()
		}
	}
	if form < 2 {
		lent(c, x, func(x []byte) {
			lent(c, y, func(y []byte) { e = curve.Encode.FromAffineCoordinates(x, y, form == 0) })
		})
	}
	Must(c, err, "form %d", form)
	compressed := len(want) == 33
	if !bytes.Equal(e.AsBytes(), want) || e.Len() != len(want) || e.ToString() != hex.EncodeToString(want) {
		c.Fatalf("form %d: %x (%d bytes, %s), want %x", form, e.AsBytes(), e.Len(), e.ToString(), want)
	}
	if e.IsCompressed() != compressed || e.IsIdentity() || e.IsCompact() || byte(e.Tag()) != want[0] {
		c.Fatalf("form %d: wrong kind", form)
	}
	if !bytes.Equal(e.X(), x) {
		c.Fatalf("form %d: X %x, want %x", form, e.X(), x)
	}
	if compressed && e.Y() != nil {
		c.Fatalf("form %d: Y %x of a compressed point", form, e.Y())
	}
	if !compressed && !bytes.Equal(e.Y(), y) {
		c.Fatalf("form %d: Y %x, want %x", form, e.Y(), y)
	}
	if byte(e.Coordinates().Tag()) != want[0] {
		c.Fatalf("form %d: coordinates tagged %d", form, e.Coordinates().Tag())
	}
	cp := e.Compress()
	if !bytes.Equal(cp.AsBytes(), p.Bytes()) || (cp.Tag() == curve.CompressedOddY) != odd {
		c.Fatalf("form %d: compressed to %x, want %s", form, cp.AsBytes(), p)
	}
	if !bytes.Equal(e.AsBytes(), want) {
		c.Fatalf("form %d: changed by compressing", form)
	}
	d, err := curve.K256Point.Deserialize(cp.AsBytes())
	Must(c, err, "decode compressed")
	checkPoint(c, d, p, "decode compressed")
	// what is made of it is not changed with it
	if !compressed {
		if raw := e.AsBytes(); len(raw) == 65 {
			for i := range raw {
				raw[i] ^= 0x5a
			}
		}
		if !bytes.Equal(cp.AsBytes(), p.Bytes()) {
			c.Fatalf("form %d: the compressed point changed to %x", form, cp.AsBytes())
		}
	}
}
