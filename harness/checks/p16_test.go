package checks

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP16(t *testing.T) {
	Run(t, "P16", []Sub{
		{"sqrt", "square roots, inverse, sign, conditional assignment of one drawn value (a square in half of the cases); all count", 24000, fieldSqrt},
		{"programs", "a program of field operations over aliased registers holding boundary-biased values; non-trivial when it has at least one operation", 24000, fieldPrograms},
		{"binary", "one operation on two drawn values and every aliasing of receiver and operands; all count", 24000, fieldBinary},
		{"decode", "byte strings of any length around the canonical encoding; all count", 48000, fieldDecode},
		{"wide", "wide byte strings of 0 to 200 bytes, often next to multiples of the prime; all count", 48000, fieldWide},
	})
}

func FE(v *big.Int) curve.EccFieldElement {
	f, err := curve.Field.FromBytes(K, ref.B32(v))
	if err != nil {
		panic(err)
	}
	return f
}

func checkField(c *C, f curve.EccFieldElement, want *big.Int, what string) {
	c.Helper()
	if f == nil {
		c.Fatalf("%s: nil, want %x", what, want)
	}
	c.Loose(f)
	if !bytes.Equal(f.AsBytes(), ref.B32(want)) {
		c.Fatalf("%s: got %x, want %x", what, f.AsBytes(), want)
	}
	if f.BigInt().Cmp(want) != 0 {
		c.Fatalf("%s: BigInt %x, want %x", what, f.BigInt(), want)
	}
	if i2b(f.IsZero()) != (want.Sign() == 0) {
		c.Fatalf("%s: IsZero %d for %x", what, f.IsZero(), want)
	}
	if uint(f.Sign()) != want.Bit(0) {
		c.Fatalf("%s: Sign %d for %x", what, f.Sign(), want)
	}
	if f.CurveType() != K {
		c.Fatalf("%s: curve %v", what, f.CurveType())
	}
}

func fm(f func(a, b, m *big.Int) *big.Int) func(a, b *big.Int) *big.Int {
	return func(a, b *big.Int) *big.Int { return f(a, b, ref.P) }
}

type fieldOp struct {
	name string
	lib  func(r, a, b curve.EccFieldElement) curve.EccFieldElement
	ref  func(a, b *big.Int) *big.Int
}

var progExp = new(big.Int).Rsh(new(big.Int).Sub(ref.P, big.NewInt(3)), 2)

var fieldOps = []fieldOp{
	{"add", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Add(a, b) }, fm(ref.AddM)},
	{"sub", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Sub(a, b) }, fm(ref.SubM)},
	{"mul", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Mul(a, b) }, fm(ref.MulM)},
	{"square", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Square(a) }, func(a, b *big.Int) *big.Int { return ref.MulM(a, a, ref.P) }},
	{"neg", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Negate(a) }, func(a, b *big.Int) *big.Int { return ref.NegM(a, ref.P) }},
	{"inv", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Invert(a) }, func(a, b *big.Int) *big.Int { return ref.InvM(a, ref.P) }},
	{"assign", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Assign(a) }, func(a, b *big.Int) *big.Int { return a }},
	{"progenitor", func(r, a, b curve.EccFieldElement) curve.EccFieldElement { return r.Progenitor(a) }, func(a, b *big.Int) *big.Int { return new(big.Int).Exp(a, progExp, ref.P) }},
}

func fieldPrograms(c *C) {
	const regs = 4
	var lib [regs]curve.EccFieldElement
	var mod [regs]*big.Int
	for i := range lib {
		mod[i] = FieldEl(c, "init")
		lib[i] = FE(mod[i])
		c.Key(mod[i])
	}
	n := Int(c, 0, 14, "steps")
	if n == 0 {
		c.Trivial()
	}
	var prog []string
	for s := 0; s < n; s++ {
		d, a, b := Int(c, 0, regs-1, "d"), Int(c, 0, regs-1, "a"), Int(c, 0, regs-1, "b")
		k := Int(c, 0, len(fieldOps)+2, "op")
		c.Key(d, a, b, k)
		switch {
		case k < len(fieldOps):
			op := fieldOps[k]
			prog = append(prog, op.name)
			want := op.ref(mod[a], mod[b])
			res := op.lib(lib[d], lib[a], lib[b])
			mod[d] = new(big.Int).Set(want)
			checkField(c, res, want, op.name+" returned")
		case k == len(fieldOps):
			prog = append(prog, "clone")
			lib[d], mod[d] = lib[a].Clone(), mod[a]
		case k == len(fieldOps)+1:
			flag := Int(c, 0, 1, "flag")
			prog = append(prog, "cassign")
			lib[d].CAssign(lib[a], flag)
			if flag == 1 {
				mod[d] = mod[a]
			}
		default:
			prog = append(prog, "sqrt")
			root := ref.SqrtP(mod[a])
			res, ok := lib[d].Sqrt(lib[a])
			if i2b(ok) != (root != nil) {
				c.Fatalf("Sqrt(%x) reported %d", mod[a], ok)
			}
			if root == nil {
				root = new(big.Int)
			}
			// either root is a square root
			if !bytes.Equal(res.AsBytes(), ref.B32(root)) {
				root = ref.NegM(root, ref.P)
			}
			checkField(c, res, root, "sqrt returned")
			mod[d] = root
		}
		for i := range lib {
			checkField(c, lib[i], mod[i], "register after "+prog[len(prog)-1])
			if got := i2b(lib[a].Equal(lib[i])); got != (mod[a].Cmp(mod[i]) == 0) {
				c.Fatalf("Equal(%x,%x)=%v", mod[a], mod[i], got)
			}
		}
	}
	c.Note("%v on %x", prog, mod[0])
}

func fieldBinary(c *C) {
	a, b := FieldEl(c, "a"), FieldEl(c, "b")
	switch Int(c, 0, 9, "rel") {
	case 0:
		b = new(big.Int).Set(a)
	case 1:
		b = ref.NegM(a, ref.P)
	case 2:
		b = ref.InvM(a, ref.P)
	case 3:
		b = ref.AddM(ref.NegM(a, ref.P), big.NewInt(int64(Int(c, 0, 2, "d"))), ref.P)
	}
	op := Pick(c, fieldOps, "op")
	c.Key(op.name, a, b)
	c.Note("%s(%x, %x)", op.name, a, b)
	garbage := FieldEl(c, "garbage")
	for _, alias := range []string{"fresh", "r=a", "r=b", "a=b", "r=a=b"} {
		la, lb, w, vb := FE(a), FE(b), op.ref(a, b), b
		if alias == "a=b" || alias == "r=a=b" {
			lb, vb = la, a
			w = op.ref(a, a)
		}
		r := FE(garbage)
		switch alias {
		case "r=a", "r=a=b":
			r = la
		case "r=b":
			r = lb
		}
		res := op.lib(r, la, lb)
		checkField(c, res, w, op.name+" "+alias+" returned")
		checkField(c, r, w, op.name+" "+alias+" receiver")
		if r != la {
			checkField(c, la, a, op.name+" "+alias+" first operand after")
		}
		if r != lb {
			checkField(c, lb, vb, op.name+" "+alias+" second operand after")
		}
	}
}

func fieldSqrt(c *C) {
	a := FieldEl(c, "a")
	if Bool(c, "square") {
		a = ref.MulM(a, a, ref.P)
	}
	c.Key(a)
	c.Note("%x", a)
	root := ref.SqrtP(a)
	c.Label("square=%v", root != nil)
	garbage := FieldEl(c, "garbage")
	for _, alias := range []bool{false, true} {
		f := FE(a)
		r := FE(garbage)
		if alias {
			r = f
		}
		got, ok := r.Sqrt(f)
		if i2b(ok) != (root != nil) {
			c.Fatalf("Sqrt(%x) reported %d", a, ok)
		}
		if root != nil {
			w := root
			if got.BigInt().Cmp(w) != 0 {
				w = ref.NegM(root, ref.P)
			}
			checkField(c, got, w, "Sqrt")
		}
		if !alias {
			checkField(c, f, a, "operand of Sqrt")
		}
	}
	f := FE(a)
	g := FE(garbage)
	g.CAssign(f, 0)
	checkField(c, g, garbage, "CAssign 0")
	g.CAssign(f, 1)
	checkField(c, g, a, "CAssign 1")
	g.Add(g, g)
	checkField(c, f, a, "source after changing the assigned")
	g = f.Clone()
	g.Add(g, FE(big.NewInt(1)))
	checkField(c, f, a, "after changing its clone")
	twice(c, "clone", f.Clone, eachField(c, a))
	twice(c, "decoded", func() curve.EccFieldElement { return FE(a) }, eachField(c, a))
	if OneIn(c, 4, "twice") {
		twice(c, "Zero", func() curve.EccFieldElement { return curve.Field.Zero(K) }, eachField(c, new(big.Int)))
		twice(c, "One", func() curve.EccFieldElement { return curve.Field.One(K) }, eachField(c, big.NewInt(1)))
		twice(c, "B", func() curve.EccFieldElement { return curve.Field.B(K) }, eachField(c, big.NewInt(7)))
		twice(c, "wide", func() curve.EccFieldElement { return curve.K256Field.FromBytesWide(ref.B32(a)) }, eachField(c, a))
	}
	inv := curve.Field.Zero(K).Invert(f)
	if a.Sign() != 0 {
		checkField(c, inv.Mul(inv, f), big.NewInt(1), "a * 1/a")
	}
	checkField(c, curve.Field.Zero(K), new(big.Int), "Zero")
	checkField(c, curve.Field.One(K), big.NewInt(1), "One")
	checkField(c, curve.Field.A(K), new(big.Int), "A")
	checkField(c, curve.Field.B(K), big.NewInt(7), "B")
}

func fieldDecode(c *C) {
	b := encodingInput(c, ref.P)
	keep := append([]byte{}, b...)
	v := new(big.Int).SetBytes(b)
	ok := len(b) == 32 && v.Cmp(ref.P) < 0
	c.Key(b)
	c.Label("valid=%v", ok)
	c.Note("decode %x", b)
	f, err := curve.Field.FromBytes(K, b)
	if ok {
		Must(c, err, "FromBytes %x", b)
		checkField(c, f, v, "FromBytes")
	} else {
		MustErr(c, err, "FromBytes %x", b)
	}
	kf, err := curve.K256Field.FromBytes(b)
	if ok {
		Must(c, err, "K256 FromBytes %x", b)
		checkField(c, kf, v, "K256 FromBytes")
	} else {
		MustErr(c, err, "K256 FromBytes %x", b)
	}
	if !bytes.Equal(b, keep) {
		c.Fatalf("decoding changed its input")
	}
}

func fieldWide(c *C) {
	b := wideBytes(c, ref.P)
	c.Key(b)
	c.Label("wide%d", len(b)/16*16)
	c.Note("FromBytesWide(%x)", b)
	keep := append([]byte{}, b...)
	w := ref.Mod(new(big.Int).SetBytes(b), ref.P)
	f, err := curve.Field.FromBytesWide(K, b)
	Must(c, err, "FromBytesWide(%x)", b)
	checkField(c, f, w, "FromBytesWide")
	checkField(c, curve.K256Field.FromBytesWide(b), w, "K256 FromBytesWide")
	if !bytes.Equal(b, keep) {
		c.Fatalf("FromBytesWide changed its input")
	}
}
