package checks

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/fxamacker/cbor/v2"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP15(t *testing.T) {
	Run(t, "P15", []Sub{
		{"unary", "negation, inversion, high and zero tests, encodings of one drawn value; all count", 32000, scalarUnary},
		{"programs", "a program of scalar operations over aliased registers holding boundary-biased values; non-trivial when it has at least one operation", 24000, scalarPrograms},
		{"binary", "one operation on two drawn values and every aliasing of receiver and operands; all count", 24000, scalarBinary},
		{"construct", "integers, node indices and wide byte strings turned into scalars; all count", 40000, scalarConstruct},
		{"decode", "byte strings of any length around the canonical encodings, in every format; all count", 64000, scalarDecode},
	})
}

func i2b(i int) bool { return i == 1 }

func checkScalar(c *C, s curve.EccScalar, want *big.Int, what string) {
	c.Helper()
	if s == nil {
		c.Fatalf("%s: nil, want %x", what, want)
	}
	c.Loose(s)
	b := s.Serialize()
	c.Owned(b)
	if !bytes.Equal(b, ref.B32(want)) {
		c.Fatalf("%s: got %x, want %x", what, b, want)
	}
	if s.BigInt().Cmp(want) != 0 {
		c.Fatalf("%s: BigInt %x, want %x", what, s.BigInt(), want)
	}
	if !bytes.Equal(s.SerializeTagged(), append([]byte{1}, ref.B32(want)...)) {
		c.Fatalf("%s: tagged %x, want 01 %x", what, s.SerializeTagged(), want)
	}
	if i2b(s.IsZero()) != (want.Sign() == 0) {
		c.Fatalf("%s: IsZero %d for %x", what, s.IsZero(), want)
	}
	half := new(big.Int).Rsh(ref.Q, 1)
	if s.IsHigh() != (want.Cmp(half) > 0) {
		c.Fatalf("%s: IsHigh %v for %x", what, s.IsHigh(), want)
	}
	if s.CurveType() != K {
		c.Fatalf("%s: curve type %v", what, s.CurveType())
	}
}

type scalarOp struct {
	name string
	lib  func(r, a, b curve.EccScalar) curve.EccScalar
	ref  func(a, b *big.Int) *big.Int
}

var scalarOps = []scalarOp{
	{"add", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Add(a, b) }, ref.Add},
	{"sub", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Sub(a, b) }, ref.Sub},
	{"mul", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Mul(a, b) }, ref.Mul},
	{"neg", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Negate(a) }, func(a, b *big.Int) *big.Int { return ref.Neg(a) }},
	{"inv", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Invert(a) }, func(a, b *big.Int) *big.Int { return ref.Inv(a) }},
	{"assign", func(r, a, b curve.EccScalar) curve.EccScalar { return r.Assign(a) }, func(a, b *big.Int) *big.Int { return a }},
}

// registers hold distinct objects; the model holds their values
func scalarPrograms(c *C) {
	const regs = 4
	var lib [regs]curve.EccScalar
	var mod [regs]*big.Int
	for i := range lib {
		mod[i] = Scalar(c, "init")
		lib[i] = S(mod[i])
		c.Key(mod[i])
	}
	n := Int(c, 0, 14, "steps")
	if n == 0 {
		c.Trivial()
	}
	var prog []string
	for s := 0; s < n; s++ {
		d, a, b := Int(c, 0, regs-1, "d"), Int(c, 0, regs-1, "a"), Int(c, 0, regs-1, "b")
		k := Int(c, 0, len(scalarOps)+1, "op")
		c.Key(d, a, b, k)
		if k < len(scalarOps) {
			op := scalarOps[k]
			prog = append(prog, op.name)
			want := op.ref(mod[a], mod[b])
			res := op.lib(lib[d], lib[a], lib[b])
			mod[d] = new(big.Int).Set(want)
			checkScalar(c, res, want, op.name+" returned")
		} else if k == len(scalarOps) {
			prog = append(prog, "clone")
			lib[d] = lib[a].Clone()
			mod[d] = mod[a]
		} else {
			prog = append(prog, "fresh")
			mod[d] = Scalar(c, "fresh")
			lib[d] = S(mod[d])
		}
		for i := range lib {
			checkScalar(c, lib[i], mod[i], "register after "+prog[len(prog)-1])
		}
		for i := range lib {
			if got := i2b(lib[a].Equal(lib[i])); got != (mod[a].Cmp(mod[i]) == 0) {
				c.Fatalf("Equal(%x,%x)=%v", mod[a], mod[i], got)
			}
		}
	}
	c.Label("len%d", n/5*5)
	c.Note("%v on %x", prog, mod[0])
}

func scalarBinary(c *C) {
	a, b := Scalar(c, "a"), Scalar(c, "b")
	switch Int(c, 0, 9, "rel") {
	case 0:
		b = new(big.Int).Set(a)
	case 1:
		b = ref.Neg(a)
	case 2:
		b = ref.Inv(a)
	case 3: // the sum straddles the order
		b = ref.Add(ref.Neg(a), big.NewInt(int64(Int(c, 0, 2, "d"))))
	}
	op := Pick(c, scalarOps, "op")
	c.Key(op.name, a, b)
	c.Note("%s(%x, %x)", op.name, a, b)
	want := op.ref(a, b)
	garbage := Scalar(c, "garbage")
	for _, alias := range []string{"fresh", "r=a", "r=b", "a=b", "r=a=b"} {
		la, lb, w, vb := S(a), S(b), want, b
		if alias == "a=b" || alias == "r=a=b" {
			lb, vb = la, a
			w = op.ref(a, a)
		}
		r := S(garbage)
		switch alias {
		case "r=a", "r=a=b":
			r = la
		case "r=b":
			r = lb
		}
		res := op.lib(r, la, lb)
		checkScalar(c, res, w, op.name+" "+alias+" returned")
		checkScalar(c, r, w, op.name+" "+alias+" receiver")
		if r != la {
			checkScalar(c, la, a, op.name+" "+alias+" first operand after")
		}
		if r != lb {
			checkScalar(c, lb, vb, op.name+" "+alias+" second operand after")
		}
	}
	if i2b(S(a).Equal(S(b))) != (a.Cmp(b) == 0) || i2b(S(b).Equal(S(a))) != (a.Cmp(b) == 0) {
		c.Fatalf("Equal(%x,%x) wrong", a, b)
	}
}

func scalarUnary(c *C) {
	a := Scalar(c, "a")
	c.Key(a)
	c.Note("%x", a)
	s := S(a)
	checkScalar(c, s, a, "value")
	inv := s.Clone().Invert(s)
	if a.Sign() != 0 {
		checkScalar(c, inv.Mul(inv, s), big.NewInt(1), "a * 1/a")
	}
	checkScalar(c, s, a, "value afterwards")
	// every format decodes to the same value
	d, err := curve.Scalar.Deserialize(K, s.Serialize())
	Must(c, err, "plain")
	checkScalar(c, d, a, "plain")
	d, err = curve.Scalar.DeserializeTagged(s.SerializeTagged())
	Must(c, err, "tagged")
	checkScalar(c, d, a, "tagged")
	ks, err := curve.K256Scalar.Deserialize(s.Serialize())
	Must(c, err, "k256")
	checkScalar(c, ks, a, "k256")
	enc, err := cbor.Marshal(s)
	Must(c, err, "cbor")
	out := curve.K256Scalar.FromUint64(uint64(Int(c, 0, 9, "old")))
	Must(c, cbor.Unmarshal(enc, out), "uncbor")
	checkScalar(c, out, a, "cbor")
	sb := curve.Scalar.ToScalarBytes(s)
	if !bytes.Equal(sb.ScalarBytes(), ref.B32(a)) || sb.CurveType() != K {
		c.Fatalf("container holds %x of %v, want %x", sb.ScalarBytes(), sb.CurveType(), a)
	}
	checkScalar(c, sb.ToScalar(), a, "container")
	checkScalar(c, s.Clone(), a, "clone")
	twice(c, "clone", s.Clone, eachScalar(c, a))
	if OneIn(c, 4, "twice") {
		twice(c, "decoded", func() scalarT { return S(a) }, eachScalar(c, a))
		twice(c, "from a container", sb.ToScalar, eachScalar(c, a))
		twice(c, "Zero", func() scalarT { return curve.Scalar.Zero(K) }, eachScalar(c, new(big.Int)))
		twice(c, "One", func() scalarT { return curve.Scalar.One(K) }, eachScalar(c, big.NewInt(1)))
		n := Int(c, 0, 20, "number")
		twice(c, "FromUint64", func() scalarT { return curve.Scalar.FromUint64(K, uint64(n)) }, eachScalar(c, big.NewInt(int64(n))))
		twice(c, "FromNodeIndex", func() scalarT { return curve.Scalar.FromNodeIndex(K, NI(n)) }, eachScalar(c, ref.NodeX(n)))
		twice(c, "FromWideBytes", func() scalarT { return curve.K256Scalar.FromWideBytes(ref.B32(a)) }, eachScalar(c, a))
	}
	cl := s.Clone()
	cl.Add(cl, cl)
	checkScalar(c, s, a, "after changing its clone")
}

func scalarConstruct(c *C) {
	switch Int(c, 0, 4, "what") {
	case 0:
		n := U64(c, "n")
		if Bool(c, "edge") {
			n = []uint64{0, 1, 2, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}[Int(c, 0, 8, "e")]
		}
		c.Key("u64", n)
		c.Note("FromUint64(%d)", n)
		w := new(big.Int).SetUint64(n)
		checkScalar(c, curve.Scalar.FromUint64(K, n), w, "FromUint64")
		checkScalar(c, curve.K256Scalar.FromUint64(n), w, "K256 FromUint64")
	case 1:
		n := Node(c, "n")
		c.Key("node", n)
		c.Note("FromNodeIndex(%d)", n)
		checkScalar(c, curve.Scalar.FromNodeIndex(K, NI(n)), ref.NodeX(n), "FromNodeIndex")
	case 2:
		checkScalar(c, curve.Scalar.Zero(K), new(big.Int), "Zero")
		checkScalar(c, curve.Scalar.One(K), big.NewInt(1), "One")
		c.Key("const")
	default:
		b := wideBytes(c, ref.Q)
		c.Key("wide", b)
		c.Label("wide%d", len(b)/16*16)
		c.Note("FromBytesWide(%x)", b)
		keep := append([]byte{}, b...)
		s, err := curve.Scalar.FromBytesWide(K, b)
		Must(c, err, "FromBytesWide(%x)", b)
		checkScalar(c, s, ref.Mod(new(big.Int).SetBytes(b), ref.Q), "FromBytesWide")
		checkScalar(c, curve.K256Scalar.FromWideBytes(b), ref.Mod(new(big.Int).SetBytes(b), ref.Q), "FromWideBytes")
		if !bytes.Equal(b, keep) {
			c.Fatalf("FromBytesWide changed its input")
		}
	}
}

// wideBytes draws 0..200 bytes, often around multiples of m
func wideBytes(c *C, m *big.Int) []byte {
	switch Int(c, 0, 4, "wk") {
	case 0: // k*m + d, padded to some length
		k := new(big.Int).SetBytes(Expand(U64(c, "k"), Int(c, 0, 33, "kl")))
		v := new(big.Int).Mul(k, m)
		v.Add(v, big.NewInt(int64(Int(c, -2, 2, "d"))))
		v.Abs(v)
		b := v.Bytes()
		return append(make([]byte, Int(c, 0, 20, "pad")), b...)
	case 1:
		return Content(c, Int(c, 60, 68, "l"), "b")
	case 2:
		return Content(c, Int(c, 30, 50, "l"), "b")
	}
	return Bytes(c, 200, "b")
}

// scalarInput draws a byte string to decode
func encodingInput(c *C, m *big.Int) []byte {
	v := ModInt(c, m, "v")
	switch Int(c, 0, 9, "ek") {
	case 0, 1, 2:
		return ref.B32(v)
	case 3, 4: // at or above the modulus
		max := new(big.Int).Lsh(big.NewInt(1), 256)
		room := new(big.Int).Sub(max, m)
		room.Sub(room, big.NewInt(1))
		x := new(big.Int)
		switch Int(c, 0, 3, "above") {
		case 0:
			x.Set(m)
		case 1:
			x.Add(m, big.NewInt(int64(Int(c, 0, 300, "d"))))
		case 2:
			x.Sub(max, big.NewInt(int64(Int(c, 1, 300, "d"))))
		case 3:
			x.SetBytes(Expand(U64(c, "r"), 32))
			x.Mod(x, room)
			x.Add(x, m)
		}
		return ref.B32(x)
	case 5: // little endian or otherwise permuted
		b := ref.B32(v)
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return b
	case 6:
		b := ref.B32(v)
		return b[:Int(c, 0, 31, "cut")]
	case 7:
		return append(ref.B32(v), Content(c, Int(c, 1, 40, "more"), "more")...)
	case 8:
		return append(make([]byte, Int(c, 1, 5, "zeros")), ref.B32(v)...)
	}
	return Bytes(c, 80, "b")
}

func scalarDecode(c *C) {
	b := encodingInput(c, ref.Q)
	keep := append([]byte{}, b...)
	v := new(big.Int).SetBytes(b)
	ok := len(b) == 32 && v.Cmp(ref.Q) < 0
	tag := byte(1)
	if OneIn(c, 4, "tagged wrong") {
		tag = byte(Int(c, 0, 255, "tag"))
	}
	ct := curve.EccCurveType(1)
	if OneIn(c, 8, "curve") {
		ct = curve.EccCurveType(Int(c, -1, 4, "ct"))
	}
	c.Key(b, tag, ct)
	c.Label("valid=%v", ok)
	c.Note("decode %x tag %d curve %d", b, tag, ct)

	judge := func(what string, s curve.EccScalar, err error, ok bool) {
		if !ok {
			if err == nil {
				c.Fatalf("%s: %x accepted", what, b)
			}
			return
		}
		Must(c, err, "%s %x", what, b)
		checkScalar(c, s, v, what)
	}
	s, err := curve.Scalar.Deserialize(ct, b)
	judge("Deserialize", s, err, ok && ct == 1)
	ks, err := curve.K256Scalar.Deserialize(b)
	judge("K256 Deserialize", ks, err, ok)
	tb := append([]byte{tag}, b...)
	if OneIn(c, 10, "notag") {
		tb = b
	}
	tok := len(tb) == 33 && tb[0] == 1 && new(big.Int).SetBytes(tb[1:]).Cmp(ref.Q) < 0
	if tok {
		v = new(big.Int).SetBytes(tb[1:])
	}
	s, err = curve.Scalar.DeserializeTagged(tb)
	judge("DeserializeTagged", s, err, tok)
	// self-describing
	enc, _ := cbor.Marshal(tb)
	old := Scalar(c, "old")
	out := S(old).(*curve.Secp256k1Scalar)
	judge("CBOR", out, cbor.Unmarshal(enc, out), tok)
	if !bytes.Equal(b, keep) {
		c.Fatalf("decoding changed its input")
	}
	// another CBOR item is refused
	switch Int(c, 0, 3, "item") {
	case 0:
		enc, _ = cbor.Marshal(binary.BigEndian.Uint32(Expand(U64(c, "u"), 4)))
	case 1:
		enc, _ = cbor.Marshal(string(Expand(U64(c, "u"), 33)))
	case 2:
		enc, _ = cbor.Marshal([]int{2, 3})
	default:
		enc, _ = cbor.Marshal(tb)
		enc = enc[:len(enc)-1]
	}
	out = S(old).(*curve.Secp256k1Scalar)
	MustErr(c, cbor.Unmarshal(enc, out), "CBOR item %x", enc)
}
