package checks

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/seed"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP19(t *testing.T) {
	Run(t, "P19", []Sub{
		{"expand", "a message, a domain separator (0 to 700 bytes, 255 and 256 favoured) and an output length from 0 to 8160; all count", 16000, xmdExpand},
		{"toolong", "an output length or count above the permitted maximum; all count", 1600, xmdTooLong},
		{"fields", "a message and domain separator hashed to 0 to 170 scalars or field elements; all count", 6000, hashFields},
		{"curve", "a message and domain separator hashed to a curve point; all count", 5000, hashCurve},
		{"map", "one field element, exceptional ones favoured, mapped to the curve; all count", 8000, mapCurve},
	})
}

// drawDST draws a domain separator, the lengths around 255 favoured
func drawDST(c *C) []byte {
	n := Pick(c, []int{0, 1, 16, 32, 63, 64, 254, 255, 256, 257, 300, 511, 512, 700}, "dstlen")
	if Bool(c, "dst short") {
		n = Int(c, 0, 60, "dstlen")
	}
	return Content(c, n, "dst")
}

func drawMsg(c *C) []byte {
	if OneIn(c, 60, "huge") {
		return Expand(U64(c, "msg"), Int(c, 1000, 70000, "msglen"))
	}
	return Bytes(c, 1000, "msg")
}

func xmdExpand(c *C) {
	msg, dst := drawMsg(c), drawDST(c)
	n := Pick(c, []int{0, 1, 16, 31, 32, 33, 48, 63, 64, 65, 96, 128, 255, 256, 257, 511, 512, 513, 4095, 4096, 8128, 8129, 8159, 8160}, "n")
	switch Int(c, 0, 2, "how") {
	case 0:
		n = Int(c, 0, 300, "n")
	case 1:
		if OneIn(c, 4, "long") {
			n = Int(c, 0, 8160, "n")
		}
	}
	c.Key(msg, dst, n)
	c.Label("length %s", bucket(n, 0, 1, 32, 33, 64, 256, 1024, 8159, 8160))
	c.Label("dst %s", bucket(len(dst), 0, 1, 255, 256))
	c.Note("msg %s dst %s length %d", ref.Hex(msg), ref.Hex(dst), n)
	m0, d0 := string(msg), string(dst)
	got, err := seed.ExpandMessageXmd(msg, dst, n)
	Must(c, err, "ExpandMessageXmd(%d)", n)
	want := []byte{}
	if n > 0 {
		want = ref.XMD(msg, dst, n)
	}
	if !bytes.Equal(got, want) {
		c.Fatalf("expand msg %s dst %s to %d bytes: %s, want %s", ref.Hex(msg), ref.Hex(dst), n, ref.Hex(got), ref.Hex(want))
	}
	if string(msg) != m0 || string(dst) != d0 {
		c.Fatalf("the input changed")
	}
	if Bool(c, "altered") {
		Spoil(got)
	} else {
		c.Owned(got)
		for k, of := 0, Int(c, 1, 2, "others"); k < of; k++ {
			other := append([]byte{byte(k)}, msg...)
			o, err := seed.ExpandMessageXmd(other, dst, n)
			Must(c, err, "ExpandMessageXmd(%d)", n)
			if n > 0 && !bytes.Equal(o, ref.XMD(other, dst, n)) {
				c.Fatalf("expand msg %s dst %s to %d bytes: %s, want %s", ref.Hex(other), ref.Hex(dst), n, ref.Hex(o), ref.Hex(ref.XMD(other, dst, n)))
			}
			c.Owned(o)
		}
		if !bytes.Equal(got, want) {
			c.Fatalf("the %d bytes expanded from msg %s dst %s became %s, they were %s", n, ref.Hex(msg), ref.Hex(dst), ref.Hex(got), ref.Hex(want))
		}
	}
	again, err := seed.ExpandMessageXmd(msg, dst, n)
	if err != nil || !bytes.Equal(again, want) {
		c.Fatalf("a second expansion differs")
	}
	c.Owned(again)
}

// bucket names the largest bound not above n
func bucket(n int, bounds ...int) string {
	r := "<"
	for _, b := range bounds {
		if n >= b {
			r = ">=" + itoa(b)
		}
	}
	return r
}
func itoa(n int) string { return big.NewInt(int64(n)).String() }

func xmdTooLong(c *C) {
	msg, dst := Bytes(c, 80, "msg"), drawDST(c)
	n := 8161 + Pick(c, []int{0, 1, 30, 31, 32, 33, 255, 256, 1000, 57375, 57376, 65536 - 8161, 65536, 1 << 20}, "over")
	count := 171 + Int(c, 0, 2000, "count")
	c.Key(msg, dst, n, count)
	c.Note("length %d, count %d", n, count)
	if b, err := seed.ExpandMessageXmd(msg, dst, n); err == nil {
		c.Fatalf("%d bytes expanded, at most 8160 are permitted (got %d)", n, len(b))
	}
	if s, err := curve.HashToScalar(count, K, msg, dst); err == nil {
		c.Fatalf("%d scalars hashed (got %d)", count, len(s))
	}
	if s, err := curve.Scalar.HashToSeveralScalar(K, count, msg, dst); err == nil {
		c.Fatalf("%d scalars hashed (got %d)", count, len(s))
	}
	if s, err := curve.HashToField(count, K, msg, dst); err == nil {
		c.Fatalf("%d field elements hashed (got %d)", count, len(s))
	}
}

func hashFields(c *C) {
	msg, dst := Data(c, "msg"), drawDST(c)
	n := Int(c, 0, 5, "count")
	if OneIn(c, 8, "many") {
		n = Int(c, 5, 170, "count")
	}
	c.Key(msg, dst, n)
	c.Label("count %s", bucket(n, 0, 1, 2, 6, 169, 170))
	c.Note("msg %s dst %s count %d", ref.Hex(msg), ref.Hex(dst), n)
	ss, err := curve.HashToScalar(n, K, msg, dst)
	Must(c, err, "HashToScalar(%d)", n)
	fs, err := curve.HashToField(n, K, msg, dst)
	Must(c, err, "HashToField(%d)", n)
	s2, err := curve.Scalar.HashToSeveralScalar(K, n, msg, dst)
	Must(c, err, "HashToSeveralScalar(%d)", n)
	if len(ss) != n || len(fs) != n || len(s2) != n {
		c.Fatalf("asked for %d elements, got %d, %d and %d", n, len(ss), len(fs), len(s2))
	}
	if n > 0 {
		ws, wf := ref.HashToInts(msg, dst, n, ref.Q), ref.HashToInts(msg, dst, n, ref.P)
		for i := range ws {
			if V(ss[i]).Cmp(ws[i]) != 0 || V(s2[i]).Cmp(ws[i]) != 0 {
				c.Fatalf("scalar %d of %d is %x, want %x", i, n, V(ss[i]), ws[i])
			}
			if !bytes.Equal(fs[i].AsBytes(), ref.B32(wf[i])) {
				c.Fatalf("field element %d of %d is %x, want %x", i, n, fs[i].AsBytes(), wf[i])
			}
		}
	}
	c.Owned(ss, s2, fs)
	one, err := curve.Scalar.HashToScalar(K, msg, dst)
	Must(c, err, "HashToScalar")
	if w := ref.HashToInts(msg, dst, 1, ref.Q)[0]; V(one).Cmp(w) != 0 {
		c.Fatalf("hash to one scalar is %x, want %x", V(one), w)
	}
}

func hashCurve(c *C) {
	msg, dst := Data(c, "msg"), drawDST(c)
	c.Key(msg, dst)
	c.Note("msg %s dst %s", ref.Hex(msg), ref.Hex(dst))
	want := ref.HashToCurve(msg, dst)
	p, err := curve.HashToCurveRo(K, msg, dst)
	Must(c, err, "HashToCurveRo")
	q, err := curve.Point.HashToPoint(K, msg, dst)
	Must(c, err, "HashToPoint")
	c.Owned(p, q)
	if !PV(p).Eq(want) || !PV(q).Eq(want) {
		c.Fatalf("msg %s dst %s hash to %s and %s, want %s", ref.Hex(msg), ref.Hex(dst), PV(p), PV(q), want)
	}
	if !PV(p).OnCurve() || q.Equal(p) != 1 {
		c.Fatalf("msg %s dst %s: not on the curve, or not deterministic", ref.Hex(msg), ref.Hex(dst))
	}
}

// exceptional is the square root of 1/11, where the map's denominator vanishes
var exceptional = ref.SqrtP(ref.InvM(big.NewInt(11), ref.P))

func mapCurve(c *C) {
	var u *big.Int
	how := ""
	switch Int(c, 0, 7, "how") {
	case 0:
		how, u = "exceptional", new(big.Int)
	case 1:
		how, u = "exceptional", exceptional
		if u == nil { // 1/11 is no square: then only 0 is exceptional
			how, u = "zero", new(big.Int)
		}
		if Bool(c, "neg") {
			u = ref.NegM(u, ref.P)
		}
	case 2: // next to the exceptional ones
		how, u = "near", big.NewInt(int64(Int(c, 0, 40, "small")))
		if Bool(c, "neg") {
			u = ref.NegM(u, ref.P)
		}
	default:
		how, u = "drawn", FieldEl(c, "u")
	}
	c.Key(u)
	c.Label("%s", how)
	c.Note("map %x", u)
	fe := FE(u)
	p, err := curve.MapToCurve(fe)
	Must(c, err, "MapToCurve(%x)", u)
	c.Owned(p)
	if want := ref.MapToCurve(u); !PV(p).Eq(want) {
		c.Fatalf("%x maps to %s, want %s", u, PV(p), want)
	}
	if !bytes.Equal(fe.AsBytes(), ref.B32(u)) {
		c.Fatalf("mapping changed the field element %x", u)
	}
	// u and -u map to opposite points but for the exceptional ones' sign
	n, err := curve.MapToCurve(FE(ref.NegM(u, ref.P)))
	Must(c, err, "MapToCurve")
	if want := ref.MapToCurve(ref.NegM(u, ref.P)); !PV(n).Eq(want) {
		c.Fatalf("-%x maps to %s, want %s", u, PV(n), want)
	}
}
