package checks

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/ro"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP20(t *testing.T) {
	Run(t, "P20", []Sub{
		{"framing", "a set of named inputs of every type and length, added through the typed or the raw interface in two orders, with refused inputs in between; all count", 5000, oracleFraming},
		{"different", "two oracles that differ in one name, type, content, boundary between them, number of inputs or domain separator; all count", 8000, oracleDifferent},
		{"refused", "repeated, empty and over-long names, no inputs, outputs too long; all count", 2500, oracleRefused},
		{"continued", "an oracle that is asked, given more inputs (or refused ones), and asked again, several times; all count", 2500, oracleContinued},
		{"points", "lists of points added under one name; all count", 700, oraclePoints},
	})
}

// rin is one input of an oracle
type rin struct {
	name string
	ty   byte
	data []byte
	via  int // 0 raw, 1 typed
	v    any
}

func drawName(c *C) string {
	switch Int(c, 0, 5, "namekind") {
	case 0:
		return string(Content(c, Pick(c, []int{1, 2, 15, 127, 128, 254, 255}, "namelen"), "name"))
	case 1:
		return Pick(c, []string{"a", "b", "ab", "a[0]", "a[1]", "a[10]", "a[2]", "aa", "A", "a\x00", "\x00", "\x01", "\xff", "a0"}, "name")
	case 2:
		return fmt.Sprintf("input-%d", Int(c, 0, 30, "i"))
	}
	return Pick(c, []string{"randomness", "hashed_message", "pre_sig", "key_tweak", "associated_data", "instance_g", "instance_h", "commitment1", "commitment2", "dealer_index", "recipient_index"}, "name")
}

func drawContent(c *C) []byte {
	switch Int(c, 0, 9, "size") {
	case 0: // looks like a frame
		return append([]byte{byte(Int(c, 0, 5, "ln")), 'a', 1, 0, 0, 0, byte(Int(c, 0, 5, "l"))}, Bytes(c, 20, "data")...)
	case 1:
		return Expand(U64(c, "data"), Pick(c, []int{255, 256, 257, 511, 512, 513, 65535, 65536, 65537, 70000}, "len"))
	}
	return Bytes(c, 300, "data")
}

func drawInput(c *C, name string) rin {
	switch Int(c, 0, 6, "type") {
	case 0:
		p := AnyPoint(c, "p")
		return rin{name, 3, append([]byte{1}, p.Bytes()...), Int(c, 0, 1, "via"), p}
	case 1:
		s := Scalar(c, "s")
		return rin{name, 4, append([]byte{1}, ref.B32(s)...), Int(c, 0, 1, "via"), s}
	case 2:
		v := uint64(Node(c, "u32"))
		return rin{name, 2, intBytes(v), Int(c, 0, 2, "via"), v}
	case 3:
		v := U64(c, "u64") >> uint(Int(c, 0, 63, "shift"))
		return rin{name, 2, intBytes(v), Int(c, 0, 1, "via"), v}
	case 4: // any type byte
		return rin{name, byte(Int(c, 0, 255, "ty")), drawContent(c), 0, nil}
	}
	return rin{name, 1, drawContent(c), Int(c, 0, 1, "via"), nil}
}
func intBytes(v uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(v >> (56 - 8*i))
	}
	return b
}

func addInput(o *ro.RandomOracle, x rin) error {
	data := append([]byte{}, x.data...)
	defer func() { // what was added is the caller's to change
		for i := range data {
			data[i] ^= 0xa5
		}
	}()
	if x.via == 0 {
		return o.AddInput(x.name, data, ro.RandomOracleInputType(x.ty))
	}
	switch x.ty {
	case 1:
		return o.AddBytesString(x.name, data)
	case 2:
		if x.via == 2 {
			return o.AddUint32(x.name, uint32(x.v.(uint64)))
		}
		return o.AddUint64(x.name, x.v.(uint64))
	case 3:
		p := Pt(x.v.(ref.Pt))
		defer func() { p.Double(p) }()
		return o.AddPoint(x.name, p)
	}
	p, err := curve.Scalar.DeserializeTagged(x.data)
	if err != nil {
		return err
	}
	defer func() { p.Add(p, curve.Scalar.One(K)) }()
	return o.AddScalar(x.name, p)
}

func drawInputs(c *C, max int) []rin {
	n := Int(c, 1, max, "inputs")
	used := map[string]bool{}
	var r []rin
	for len(r) < n {
		name := drawName(c)
		for used[name] {
			name = name + "'"
			if len(name) > 255 {
				name = fmt.Sprintf("n%d", len(r))
			}
		}
		used[name] = true
		r = append(r, drawInput(c, name))
	}
	return r
}

func drawOracleDST(c *C) string {
	if Bool(c, "dst") {
		return Pick(c, []string{"ic-crypto-tecdsa-rerandomize-presig", "ic-test-domain-sep", "x", ""}, "dst")
	}
	return string(drawDST(c))
}

func modelOf(dst string, ins []rin) *ref.RO {
	m := ref.NewRO(dst)
	for _, x := range ins {
		m.Raw(x.name, x.ty, x.data)
	}
	return m
}

func libOracle(c *C, dst string, ins []rin) *ro.RandomOracle {
	o := ro.NewRandomOracle(dst)
	for _, x := range ins {
		Must(c, addInput(o, x), "input %q of %d bytes, type %d", x.name, len(x.data), x.ty)
	}
	return o
}

func outputs(c *C, o *ro.RandomOracle, m *ref.RO, what string) {
	n := Pick(c, []int{1, 16, 31, 32, 33, 48, 64, 100, 300}, "outlen")
	b, err := o.OutputByteString(n)
	Must(c, err, "%s: OutputByteString(%d)", what, n)
	if w := m.OutBytes(n); !bytes.Equal(b, w) {
		c.Fatalf("%s: output %s, want %s", what, ref.Hex(b), ref.Hex(w))
	}
	c.Owned(b)
	k := Int(c, 1, 4, "scalars")
	ss, err := o.OutputScalars(K, k)
	Must(c, err, "%s: OutputScalars(%d)", what, k)
	w := m.OutScalars(k)
	if len(ss) != k {
		c.Fatalf("%s: %d scalars, want %d", what, len(ss), k)
	}
	for i := range w {
		if V(ss[i]).Cmp(w[i]) != 0 {
			c.Fatalf("%s: scalar %d is %x, want %x", what, i, V(ss[i]), w[i])
		}
	}
	s, err := o.OutputScalar(K)
	Must(c, err, "%s: OutputScalar", what)
	c.Owned(ss, s)
	if w := m.OutScalars(1)[0]; V(s).Cmp(w) != 0 {
		c.Fatalf("%s: scalar is %x, want %x", what, V(s), w)
	}
	if OneIn(c, 3, "point") {
		p, err := o.OutputPoint(K)
		Must(c, err, "%s: OutputPoint", what)
		if w := m.OutPoint(); !PV(p).Eq(w) {
			c.Fatalf("%s: point is %s, want %s", what, PV(p), w)
		}
		c.Owned(p)
	}
}

func describe(ins []rin) string {
	var s []string
	for _, x := range ins {
		s = append(s, fmt.Sprintf("%q:%d:%s", x.name, x.ty, ref.Hex(x.data)))
	}
	return strings.Join(s, " ")
}

func oracleFraming(c *C) {
	dst := drawOracleDST(c)
	ins := drawInputs(c, 6)
	m := modelOf(dst, ins)
	c.Key(dst, describe(ins))
	longest := 0
	for _, x := range ins {
		longest = max(longest, len(x.data))
	}
	c.Label("inputs=%d", len(ins))
	c.Label("longest %s", bucket(longest, 0, 1, 255, 256, 65536))
	c.Note("dst %q inputs %s", dst, describe(ins))
	o := ro.NewRandomOracle(dst)
	for i, x := range ins {
		data := append([]byte{}, x.data...)
		y := x
		y.data = data
		Must(c, addInput(o, y), "input %q of %d bytes, type %d", x.name, len(x.data), x.ty)
		if x.via == 0 { // the oracle keeps what it was given, not a reference to it
			for j := range data {
				data[j] ^= 0x55
			}
		}
		if OneIn(c, 3, "refused") {
			refuse(c, o, ins[:i+1])
		}
	}
	outputs(c, o, m, "first order")
	outputs(c, o, m, "first order, again")
	outputs(c, libOracle(c, dst, Shuffle(c, ins, "order")), m, "another order")
}

// refuse offers inputs that must be refused
func refuse(c *C, o *ro.RandomOracle, have []rin) {
	x := drawInput(c, "")
	switch Int(c, 0, 2, "why") {
	case 0:
		x.name = ""
	case 1:
		x.name = strings.Repeat("n", Pick(c, []int{256, 257, 258, 300, 511, 512, 513, 1000}, "namelen"))
	case 2:
		x.name = Pick(c, have, "dup").name
	}
	if err := addInput(o, x); err == nil {
		c.Fatalf("input with name of %d bytes accepted (names so far: %s)", len(x.name), describe(have))
	}
}

func oracleDifferent(c *C) {
	dst := drawOracleDST(c)
	ins := drawInputs(c, 4)
	other := append([]rin{}, ins...)
	dst2 := dst
	i := Int(c, 0, len(ins)-1, "i")
	x := ins[i]
	x.via = 0
	what := ""
	taken := func(n string) bool {
		for _, y := range ins {
			if y.name == n {
				return true
			}
		}
		return false
	}
	switch Int(c, 0, 8, "what") {
	case 0:
		what = "name"
		n := string(AlterBytes(c, []byte(x.name), "name'"))
		if len(n) == 0 || len(n) > 255 || taken(n) {
			n = "other"
		}
		x.name = n
		other[i] = x
	case 1:
		what = "type"
		x.ty = byte(int(x.ty)+Int(c, 1, 255, "ty'")) & 0xff
		other[i] = x
	case 2:
		what = "content"
		x.data = AlterBytes(c, x.data, "content'")
		other[i] = x
	case 3: // a byte moves from the content into the name or back
		what = "boundary"
		if len(x.data) > 0 && len(x.name) < 255 && Bool(c, "into name") {
			x.name, x.data = x.name+string(x.data[:1]), x.data[1:]
		} else if len(x.name) > 1 {
			x.name, x.data = x.name[:len(x.name)-1], append([]byte{x.name[len(x.name)-1]}, x.data...)
		} else {
			x.data = append(x.data[:len(x.data):len(x.data)], 0)
		}
		if taken(x.name) {
			x.name = "moved"
		}
		other[i] = x
	case 4:
		what = "one more input"
		other = append(other, rin{"zz-extra", 1, Bytes(c, 3, "extra"), 0, nil})
	case 5:
		what = "one input less"
		if len(other) == 1 {
			other = append(other, rin{"aa-extra", 2, nil, 0, nil})
		} else {
			other = append(append([]rin{}, other[:i]...), other[i+1:]...)
		}
	case 6:
		what = "domain separator"
		dst2 = string(AlterBytes(c, []byte(dst), "dst'"))
	case 7: // contents of two inputs exchanged, or bytes moved between them
		what = "contents exchanged"
		j := (i + 1) % len(ins)
		y := ins[j]
		y.via = 0
		if i == j || (bytes.Equal(x.data, y.data)) {
			x.data = append(x.data[:len(x.data):len(x.data)], 1)
			other[i] = x
		} else if Bool(c, "move") && len(y.data) > 0 {
			x.data = append(x.data[:len(x.data):len(x.data)], y.data[0])
			y.data = y.data[1:]
			other[i], other[j] = x, y
		} else {
			x.data, y.data = y.data, x.data
			other[i], other[j] = x, y
		}
	case 8: // the frame of one input becomes part of the content of another
		what = "frame inside content"
		f := append([]byte{}, byte(len(x.name)))
		f = append(append(append(f, x.name...), x.ty, 0, 0, byte(len(x.data)>>8), byte(len(x.data))), x.data...)
		if len(other) == 1 {
			other = append(other, rin{"aa-extra", 1, f, 0, nil})
		} else {
			j := (i + 1) % len(ins)
			y := other[j]
			y.via, y.data = 0, append(y.data[:len(y.data):len(y.data)], f...)
			other[j] = y
			other = append(append([]rin{}, other[:i]...), other[i+1:]...)
		}
	}
	c.Key(what, dst, dst2, describe(ins), describe(other))
	c.Label("%s", what)
	c.Note("%s: %s against %s", what, describe(ins), describe(other))
	a, b := libOracle(c, dst, ins), libOracle(c, dst2, other)
	ba, err := a.OutputByteString(32)
	Must(c, err, "output")
	bb, err := b.OutputByteString(32)
	Must(c, err, "output")
	if bytes.Equal(ba, bb) {
		c.Fatalf("oracles that differ (%s) have the same output: dst %q inputs %s against dst %q inputs %s", what, dst, describe(ins), dst2, describe(other))
	}
	sa, err := a.OutputScalar(K)
	Must(c, err, "output")
	sb, err := b.OutputScalar(K)
	Must(c, err, "output")
	if V(sa).Cmp(V(sb)) == 0 {
		c.Fatalf("oracles that differ (%s) have the same scalar: %s against %s", what, describe(ins), describe(other))
	}
	outputs(c, b, modelOf(dst2, other), "the other")
}

func oracleRefused(c *C) {
	dst := drawOracleDST(c)
	o := ro.NewRandomOracle(dst)
	if _, err := o.OutputByteString(32); err == nil {
		c.Fatalf("an oracle without input gives bytes")
	}
	if _, err := o.OutputScalar(K); err == nil {
		c.Fatalf("an oracle without input gives a scalar")
	}
	if _, err := o.OutputScalars(K, Int(c, 1, 3, "k")); err == nil {
		c.Fatalf("an oracle without input gives scalars")
	}
	if _, err := o.OutputPoint(K); err == nil {
		c.Fatalf("an oracle without input gives a point")
	}
	first := Bool(c, "first") // refused inputs before any other leave it without input
	if first {
		x := drawInput(c, "")
		x.name = strings.Repeat("n", 256*Int(c, 0, 2, "namelen"))
		MustErr(c, addInput(o, x), "a name of %d bytes", len(x.name))
		_, err := o.OutputByteString(32)
		MustErr(c, err, "output after only a refused input")
	}
	ins := drawInputs(c, 3)
	for _, x := range ins {
		Must(c, addInput(o, x), "input %q", x.name)
	}
	n := Int(c, 1, 4, "refusals")
	for i := 0; i < n; i++ {
		refuse(c, o, ins)
	}
	c.Key(dst, describe(ins), first, n)
	c.Note("%d refused inputs offered to %s", n, describe(ins))
	long := 8161 + Int(c, 0, 100000, "long")
	_, err := o.OutputByteString(long)
	MustErr(c, err, "%d bytes of output", long)
	_, err = o.OutputScalars(K, 171+Int(c, 0, 500, "many"))
	MustErr(c, err, "too many scalars")
	outputs(c, o, modelOf(dst, ins), "after refused inputs")
}

func oraclePoints(c *C) {
	dst := drawOracleDST(c)
	name := drawName(c)
	if len(name) > 250 {
		name = name[:250]
	}
	n := Size(c, 1, 12, 40, 300, "n")
	ps := make([]ref.Pt, n)
	m := ref.NewRO(dst)
	for i := range ps {
		ps[i] = AnyPoint(c, "p")
		m.Point(fmt.Sprintf("%s[%d]", name, i), ps[i])
	}
	c.Key(dst, name, ps)
	c.Label("n=%d", n)
	c.Note("%d points under %q", n, name)
	o := ro.NewRandomOracle(dst)
	in := Pts(ps)
	Must(c, o.AddPoints(name, in), "AddPoints(%d)", n)
	outputs(c, o, m, "points")
	if !samePts(PVs(in), ps) {
		c.Fatalf("the points changed")
	}
	MustErr(c, o.AddPoints(name, in), "the same list again")
	i := Int(c, 0, n-1, "i")
	MustErr(c, o.AddPoint(fmt.Sprintf("%s[%d]", name, i), in[0]), "an element again")
	outputs(c, o, m, "points, after refused ones")
	// a list that is refused half way is not there at all
	half, hm := ro.NewRandomOracle(dst), ref.NewRO(dst)
	if long := 255 - len(name); Bool(c, "too long") && n > 10 && long >= 3 {
		at := name
		for len(at) < 252 { // at[9] fits, at[10] does not
			at += "x"
		}
		hm.Raw("z", 1, []byte{1})
		Must(c, half.AddBytesString("z", []byte{1}), "one input")
		MustErr(c, half.AddPoints(at, in), "a list with too long a name for its end")
		outputs(c, half, hm, "a list with too long a name for its end refused")
		Must(c, half.AddPoints(name, in), "the list, after another was refused")
		for j := range ps {
			hm.Point(fmt.Sprintf("%s[%d]", name, j), ps[j])
		}
	} else {
		hm.Point(fmt.Sprintf("%s[%d]", name, i), ps[i])
		Must(c, half.AddPoint(fmt.Sprintf("%s[%d]", name, i), in[i]), "an element")
		MustErr(c, half.AddPoints(name, in), "a list with an element that is there")
	}
	outputs(c, half, hm, "points, after a refused list")
	// order matters
	if n > 1 && !ps[0].Eq(ps[1]) {
		in[0], in[1] = in[1], in[0]
		o2 := ro.NewRandomOracle(dst)
		Must(c, o2.AddPoints(name, in), "AddPoints")
		a, _ := o.OutputByteString(32)
		b, _ := o2.OutputByteString(32)
		if bytes.Equal(a, b) {
			c.Fatalf("the order of points under %q does not matter", name)
		}
	}
}

// oracleContinued asks an oracle between additions
func oracleContinued(c *C) {
	dst := drawOracleDST(c)
	o, m := ro.NewRandomOracle(dst), ref.NewRO(dst)
	var ins []rin
	n := Size(c, 2, 6, 60, 300, "steps")
	for k := 0; k < n; k++ {
		name := drawName(c)
		if len(name) > 250 {
			name = name[:250]
		}
		x := drawInput(c, fmt.Sprintf("%s.%d", name, k))
		if Bool(c, "short") { // many of them fit where one was
			x = rin{string(rune('a'+int(U64(c, "letter")%6))) + fmt.Sprint(k), 1, Content(c, Int(c, 0, 3, "len"), "data"), Int(c, 0, 1, "via"), nil}
		}
		ins = append(ins, x)
		Must(c, addInput(o, x), "input %q", x.name)
		m.Raw(x.name, x.ty, x.data)
		if OneIn(c, 3+n/20, "refused") {
			refuse(c, o, ins)
		}
		if (Bool(c, "ask") && (n < 20 || OneIn(c, 20, "rarely"))) || k == n-1 {
			b, err := o.OutputByteString(32)
			Must(c, err, "output after %d inputs", k+1)
			if w := m.OutBytes(32); !bytes.Equal(b, w) {
				c.Fatalf("after %d inputs %s: output %x, want %x", k+1, describe(ins), b, w)
			}
			for i := range b { // what was given out is not kept
				b[i] ^= 0x33
			}
		}
		if OneIn(c, 4+n, "all") {
			outputs(c, o, m, fmt.Sprintf("after %d inputs", k+1))
		}
	}
	c.Key(dst, describe(ins))
	c.Label("inputs=%d", n)
	c.Note("dst %q inputs one by one: %s", dst, describe(ins))
}
