package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/fxamacker/cbor/v2"

	. "verifharness/hx"
	"verifharness/ref"
)

// decodeCommitment decodes polynomial commitments; p23_export_test.go sets it
var decodeCommitment func([]byte) (poly.PolynomialCommitment, error)

func TestP23(t *testing.T) {
	subs := []Sub{
		{"openings", "an opening of either kind with drawn scalars, zero and boundary ones favoured, by value or pointer; all count", 3500, openingRoundTrip},
		{"openings_mutated", "the serialisation of an opening with a structural change (items replaced, dropped, doubled, nulled, of another type, lengths claimed, non-canonical scalars) or bytes flipped, cut, appended; trivial: the change had no effect", 11000, openingMutated},
		{"keys", "encryption keys of both sorts and bytes that are none; all count", 6000, keysDecode},
		{"elements", "the CBOR of single scalars and points, changed; trivial: unchanged", 6000, elementsMutated},
		{"random", "random CBOR items and random bytes to every decoder; trivial: rejected by all before its contents were looked at (not one map, array or string)", 8000, randomDecode},
	}
	if decodeCommitment != nil {
		subs = append(subs,
			Sub{"commitments", "a commitment of either kind, bare or in a transcript's, with drawn points, identity favoured; all count", 2200, commitmentRoundTrip},
			Sub{"commitments_mutated", "the serialisation of a commitment with a structural change or bytes flipped, cut, appended; trivial: the change had no effect", 7000, commitmentMutated})
	}
	Run(t, "P23", subs)
}

func openingKind(o poly.CommitmentOpening) int {
	switch o.(type) {
	case poly.SimpleCommitmentOpening, *poly.SimpleCommitmentOpening:
		return 1
	case poly.PedersenCommitmentOpening, *poly.PedersenCommitmentOpening:
		return 2
	}
	return 0
}

// goodOpening fails unless an opening is whole and survives another round trip
func goodOpening(c *C, o poly.CommitmentOpening, from []byte) []*big.Int {
	if o == nil || openingKind(o) == 0 {
		c.Fatalf("%x decoded to %T", from, o)
	}
	v := OpVals(o)
	if len(v) != openingKind(o) {
		c.Fatalf("%x decoded to an opening of %d values", from, len(v))
	}
	for _, x := range v {
		if x.Cmp(ref.Q) >= 0 {
			c.Fatalf("%x decoded to %x", from, v)
		}
	}
	enc, err := o.Serialize()
	Must(c, err, "serialising what %x decoded to", from)
	p, err := poly.Commitment.Deserialize(enc)
	Must(c, err, "decoding what %x was serialised to again", from)
	if openingKind(p) != openingKind(o) || !SameVals(OpVals(p), v) {
		c.Fatalf("%x decodes to %x but then to %x", from, v, OpVals(p))
	}
	return v
}

func drawOpening(c *C) (poly.CommitmentOpening, []*big.Int) {
	v := bigs(Scalar(c, "value"))
	if Bool(c, "pedersen") {
		v = append(v, Scalar(c, "mask"))
	}
	o := mkOpening(v)
	if Bool(c, "pointer") {
		o = PtrOp(o)
	}
	return o, v
}

func openingRoundTrip(c *C) {
	o, v := drawOpening(c)
	c.Key(len(v), v)
	c.Label("%T", o)
	c.Note("opening %x", v)
	d := Dump(o)
	enc, err := o.Serialize()
	Must(c, err, "Serialize %x", v)
	keep := append([]byte{}, enc...)
	p, err := poly.Commitment.Deserialize(enc)
	Must(c, err, "Deserialize %x", enc)
	if openingKind(p) != len(v) || !SameVals(goodOpening(c, p, enc), v) {
		c.Fatalf("opening %x comes back as %T %x", v, p, OpVals(p))
	}
	if !bytes.Equal(keep, enc) {
		c.Fatalf("decoding changed its input")
	}
	c.Owned(p)
	for i := range enc { // nothing decoded refers to the input
		enc[i] ^= 0xff
	}
	if !SameVals(OpVals(p), v) {
		c.Fatalf("opening %x changed with the bytes it was decoded from", v)
	}
	enc2, err := o.Serialize()
	Must(c, err, "Serialize")
	if !bytes.Equal(enc2, keep) {
		c.Fatalf("another serialisation of %x: %x, %x", v, keep, enc2)
	}
	q := o.ToCommitmentOpeningBytes().ToCommitmentOpening()
	if openingKind(q) != len(v) || !SameVals(OpVals(q), v) {
		c.Fatalf("opening %x becomes %T %x by way of its bytes", v, q, OpVals(q))
	}
	for _, l := range Leaves(q) {
		l.Set(S(big.NewInt(77)))
	}
	if Dump(o) != d {
		c.Fatalf("opening %x changed", v)
	}
	// text never shows the secret
	if s := o.ToString(); v[0].BitLen() > 40 && bytes.Contains([]byte(s), []byte(fmt.Sprintf("%x", v[0]))) {
		c.Fatalf("the text of an opening shows its value: %s", s)
	}
}

// what a change of a serialisation must lead to
const (
	mustErr  = iota // an error
	mustSame        // the same value, or an error
	mustElem        // exactly the value with the new element
	mayAny          // an error or something whole
)

// isElem finds the byte strings that hold the scalars or points
func isElem(it *Item, size int) bool { return it.Major == 2 && len(it.Bytes) == size }

// mutateTree changes a serialisation's structure. size is the length of an
// element's bytes; fixed tells that the number of elements is part of the kind.
func mutateTree(c *C, enc []byte, size int, fixed bool, badElem func(*C, []byte) []byte, otherElem func(*C, []byte) []byte) (out []byte, what string, rule, elem int, val []byte) {
	root, err := ParseCBOR(enc)
	if err != nil {
		c.Fatalf("serialisation %x is not CBOR: %v", enc, err)
	}
	if !bytes.Equal(root.Enc(), enc) {
		c.Fatalf("harness: %x is written as %x", enc, root.Enc())
	}
	var elems []*Item
	var parents []*Item
	for _, p := range root.All() {
		for _, k := range p.Kids {
			if isElem(k, size) {
				elems, parents = append(elems, k), append(parents, p)
			}
		}
	}
	if len(elems) == 0 {
		c.Fatalf("harness: no element in %x", enc)
	}
	i := int(U64(c, "elem") % uint64(len(elems)))
	e, p := elems[i], parents[i]
	at := 0
	for k := range p.Kids {
		if p.Kids[k] == e {
			at = k
		}
	}
	all := root.All()
	switch Int(c, 0, 21, "mutation") {
	case 0, 1:
		what, rule, elem = "another element", mustElem, i
		val = otherElem(c, e.Bytes)
		e.Bytes = val
	case 2, 3, 4:
		what, rule = "an invalid element", mustErr
		e.Bytes = badElem(c, e.Bytes)
	case 5:
		what, rule = "a null element", mustErr
		*e = *Null()
	case 6:
		what, rule = "an element of another type", mustErr
		*e = *Pick(c, []*Item{{Major: 0, Arg: 1}, {Major: 3, Bytes: append([]byte{}, e.Bytes...)}, {Major: 4}, {Major: 5}, {Major: 7, Arg: 21}, {Major: 7, Arg: 23}}, "type")
		if e.Major == 7 && e.Arg == 23 {
			rule = mustErr
		}
	case 7:
		what, rule = "an element less", mayAny
		if fixed || len(p.Kids) == 1 {
			rule = mustErr
		}
		p.Kids = append(append([]*Item{}, p.Kids[:at]...), p.Kids[at+1:]...)
	case 8:
		what, rule = "an element more", mayAny
		if fixed {
			rule = mustErr
		}
		p.Kids = append(append([]*Item{}, p.Kids...), &Item{Major: 2, Bytes: append([]byte{}, e.Bytes...)})
	case 9:
		what, rule = "no elements", mustErr
		p.Kids = nil
	case 10:
		what, rule = "elements nulled", mustErr
		*p = *Null()
	case 11:
		what, rule = "elements of another type", mustErr
		*p = *Pick(c, []*Item{{Major: 0, Arg: 3}, {Major: 2, Bytes: append([]byte{}, e.Bytes...)}, {Major: 3, Bytes: []byte("x")}, {Major: 5}, {Major: 7, Arg: 20}}, "type")
	case 12: // numbers: curve and kind
		var nums []*Item
		for _, x := range all {
			if x.Major == 0 {
				nums = append(nums, x)
			}
		}
		if len(nums) == 0 {
			return enc, "none", mustSame, 0, nil
		}
		n := nums[int(U64(c, "num")%uint64(len(nums)))]
		n.Arg = Pick(c, []uint64{0, 2, 3, 4, 5, 255, 256, 257, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, ^uint64(0)}, "v")
		what, rule = fmt.Sprintf("number %d", n.Arg), mustErr
		if n.Arg == 2 && !fixed {
			rule = mayAny // a commitment of the other kind
		}
		if n.Arg == 2 && string(root.Enc()) == string(enc) {
			rule = mustSame
		}
	case 13:
		var nums []*Item
		for _, x := range all {
			if x.Major == 0 {
				nums = append(nums, x)
			}
		}
		if len(nums) == 0 {
			return enc, "none", mustSame, 0, nil
		}
		n := nums[int(U64(c, "num")%uint64(len(nums)))]
		*n = *Pick(c, []*Item{Null(), {Major: 1, Arg: 0}, {Major: 3, Bytes: []byte("1")}, {Major: 2, Bytes: []byte{1}}, {Major: 4}, {Major: 7, Arg: 21}}, "type")
		what, rule = "a number of another type", mustErr
	case 14:
		if root.Major != 5 || len(root.Kids) < 2 {
			return enc, "none", mustSame, 0, nil
		}
		k := int(U64(c, "key")%uint64(len(root.Kids)/2)) * 2
		root.Kids = append(append([]*Item{}, root.Kids[:k]...), root.Kids[k+2:]...)
		what, rule = "a field less", mustErr
	case 15:
		what, rule = "a field more", mustSame
		root.Kids = append(append([]*Item{}, root.Kids...), &Item{Major: 3, Bytes: []byte("Other")}, DrawItem(c, 2, "extra"))
	case 16: // a field twice: with another content the second time
		if root.Major != 5 {
			return enc, "none", mustSame, 0, nil
		}
		what, rule = "a field twice", mayAny
		k := int(U64(c, "key")%uint64(len(root.Kids)/2)) * 2
		root.Kids = append(append([]*Item{}, root.Kids...), root.Kids[k], DrawItem(c, 2, "twice"))
	case 17:
		what, rule = "a wrong length", mayAny
		x := all[int(U64(c, "item")%uint64(len(all)))]
		n := Pick(c, []uint64{0, 1, 2, 3, 100, 1 << 16, 1 << 31, 1 << 40, 1 << 62, ^uint64(0)}, "claim")
		x.Claim = &n
	case 18:
		what, rule = "another form of the same", mustSame
		x := all[int(U64(c, "item")%uint64(len(all)))]
		if x.Major >= 2 && x.Major <= 5 && Bool(c, "indefinite") {
			x.Indef = true
		} else if x.Major < 6 {
			x.Wide = Pick(c, []int{4, 8}, "wide")
		}
	case 19:
		what, rule = "an item replaced", mayAny
		x := all[int(U64(c, "item")%uint64(len(all)))]
		*x = *DrawItem(c, 2, "new")
	case 20:
		what, rule = "everything in an array or a tag", mayAny
		root = &Item{Major: byte(Pick(c, []int{4, 6}, "m")), Kids: []*Item{root}, Arg: uint64(Int(c, 0, 60000, "tag"))}
	case 21:
		what, rule = "items exchanged", mayAny
		x, y := all[int(U64(c, "item")%uint64(len(all)))], all[int(U64(c, "item2")%uint64(len(all)))]
		for _, k := range append(x.All(), y.All()...) {
			if k == x && x != all[0] && contains(y, x) || k == y && contains(x, y) {
				return enc, "none", mustSame, 0, nil
			}
		}
		*x, *y = *y, *x
	}
	return root.Enc(), what, rule, elem, val
}

func contains(a, b *Item) bool {
	for _, x := range a.All() {
		if x == b {
			return true
		}
	}
	return false
}

// mutateBytes flips, cuts or appends
func mutateBytes(c *C, enc []byte) ([]byte, string, int) {
	switch Int(c, 0, 4, "bytes") {
	case 0:
		return enc[:int(U64(c, "cut")%uint64(len(enc)))], "cut", mustErr
	case 1:
		return append(append([]byte{}, enc...), Content(c, Int(c, 1, 5, "more"), "more")...), "extended", mustSame
	case 2:
		return append(append([]byte{}, enc...), enc...), "doubled", mustSame
	}
	out := append([]byte{}, enc...)
	for k := Int(c, 1, 3, "flips"); k > 0; k-- {
		x := U64(c, "flip") % uint64(8*len(out))
		out[x/8] ^= 1 << (x % 8)
	}
	return out, "flipped", mayAny
}

// badScalar is bytes that hold no scalar in the library's tagged form
func badScalar(c *C, b []byte) []byte {
	tag := b[:1]
	switch Int(c, 0, 6, "bad") {
	case 0:
		v := new(big.Int).Add(ref.Q, new(big.Int).SetUint64(U64(c, "over")%(1<<40)))
		return append(append([]byte{}, tag...), ref.B32(v)...)
	case 1:
		return append(append([]byte{}, tag...), bytes.Repeat([]byte{0xff}, 32)...)
	case 2:
		return b[:int(U64(c, "cut")%uint64(len(b)))]
	case 3:
		return append(append([]byte{}, b...), byte(Int(c, 0, 255, "more")))
	case 4: // another curve
		r := append([]byte{}, b...)
		r[0] = byte(int(r[0]) + Int(c, 1, 255, "tag"))
		return r
	case 5:
		return append([]byte{b[0], 0}, b[1:]...)
	}
	return b[1:]
}

func otherScalarBytes(c *C, b []byte) []byte {
	v := OtherScalar(c, new(big.Int).SetBytes(b[1:]), "scalar")
	return append([]byte{b[0]}, ref.B32(v)...)
}

func badPoint(c *C, b []byte) []byte {
	switch Int(c, 0, 7, "bad") {
	case 0: // x of no point
		for x := ref.Mod(new(big.Int).SetBytes(Expand(U64(c, "x"), 32)), ref.P); ; x = ref.AddM(x, big.NewInt(1), ref.P) {
			if _, ok := ref.LiftX(x, false); !ok {
				return append([]byte{b[0], byte(2 + Int(c, 0, 1, "odd"))}, ref.B32(x)...)
			}
		}
	case 1: // x above the prime, of a point when reduced
		for i := int64(Int(c, 0, 900, "x")); ; i = (i + 1) % 977 {
			if _, ok := ref.LiftX(big.NewInt(i), false); ok {
				return append([]byte{b[0], 2}, ref.B32(new(big.Int).Add(ref.P, big.NewInt(i)))...)
			}
		}
	case 2:
		return b[:int(U64(c, "cut")%uint64(len(b)))]
	case 3:
		return append(append([]byte{}, b...), byte(Int(c, 0, 255, "more")))
	case 4: // another curve
		r := append([]byte{}, b...)
		r[0] = byte(int(r[0]) + Int(c, 1, 255, "tag"))
		return r
	case 5: // another format
		r := append([]byte{}, ref.MulG(big.NewInt(3)).Bytes()...)
		r[0] = Pick(c, []byte{0, 1, 4, 5, 6, 7, 255}, "format")
		return append([]byte{b[0]}, r...)
	case 6:
		return append([]byte{b[0]}, ref.MulG(big.NewInt(int64(Int(c, 1, 9, "k")))).Uncompressed()...)
	}
	return b[1:]
}

func otherPointBytes(c *C, b []byte) []byte {
	p, ok := ref.Decode(b[1:])
	if !ok {
		p = ref.G()
	}
	return append([]byte{b[0]}, OtherPoint(c, p, "point").Bytes()...)
}

func openingMutated(c *C) {
	o, v := drawOpening(c)
	enc, err := o.Serialize()
	Must(c, err, "Serialize %x", v)
	var out []byte
	var what string
	var rule, elem int
	var val []byte
	if OneIn(c, 3, "bytes") {
		out, what, rule = mutateBytes(c, enc)
	} else {
		out, what, rule, elem, val = mutateTree(c, enc, 33, true, badScalar, otherScalarBytes)
	}
	c.Key(out)
	c.Note("opening %x, %s: %x", v, what, out)
	in := append([]byte{}, out...)
	p, err := poly.Commitment.Deserialize(out)
	c.Label("%s accepted=%v", what, err == nil)
	if !bytes.Equal(in, out) {
		c.Fatalf("decoding changed its input")
	}
	if bytes.Equal(out, enc) {
		c.Trivial()
		rule = mustElem
		val = append([]byte{1}, ref.B32(v[elem])...)
	}
	var got []*big.Int
	if err == nil {
		got = goodOpening(c, p, out)
		everyValueFrom(c, got, out)
	}
	switch rule {
	case mustErr:
		MustErr(c, err, "decoding %x (%s)", out, what)
	case mustSame:
		if err == nil && (openingKind(p) != len(v) || !SameVals(got, v)) {
			c.Fatalf("%x (%s) decodes to %x, want %x", out, what, got, v)
		}
	case mustElem:
		Must(c, err, "decoding %x (%s)", out, what)
		want := append([]*big.Int{}, v...)
		want[elem] = new(big.Int).SetBytes(val[1:])
		if openingKind(p) != len(v) || !SameVals(got, want) {
			c.Fatalf("%x (%s) decodes to %x, want %x", out, what, got, want)
		}
	}
}

// everyValueFrom fails when a value decoded does not appear in the bytes
func everyValueFrom(c *C, got []*big.Int, from []byte) {
	for _, x := range got {
		if !bytes.Contains(from, ref.B32(x)) && !splitString(from) {
			c.Fatalf("%x decodes to %x, which it does not contain", from, got)
		}
	}
}

// splitString tells whether there may be a string in chunks
func splitString(b []byte) bool { return bytes.IndexByte(b, 0x5f) >= 0 }

func drawCommitment(c *C) (poly.PolynomialCommitment, []ref.Pt, poly.PolynomialCommitmentType, string) {
	n := Int(c, 1, 5, "n")
	var pts []ref.Pt
	if OneIn(c, 40, "many") {
		n = Pick(c, []int{6, 7, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600}, "n+")
		p, q := AnyPoint(c, "p"), NonIdPoint(c, "q")
		for i := 0; i < n; i++ {
			pts = append(pts, p)
			p = p.Add(q)
		}
	}
	for len(pts) < n {
		pts = append(pts, AnyPoint(c, "p"))
	}
	var cm poly.PolynomialCommitment
	ty := poly.Simple
	ps := make([]curve.EccPoint, n)
	for i := range ps {
		ps[i] = libPoint(c, pts[i])
	}
	if Bool(c, "pedersen") {
		ty = poly.Pedersen
		cm = poly.PedersenCM.New(ps)
	} else {
		cm = poly.SimpleCM.New(ps)
	}
	what := "bare"
	switch Int(c, 0, 3, "wrap") {
	case 2:
		what = "sum"
		cm = &dealings.SummationCommitment{PolynomialCommitment: cm}
	case 3:
		what = "interpolation"
		cm = &dealings.InterpolationCommitment{PolynomialCommitment: cm}
	}
	return cm, pts, ty, what
}

func goodCommitment(c *C, cm poly.PolynomialCommitment, from []byte) []ref.Pt {
	if cm == nil || cm.Len() == 0 || cm.Len() != len(cm.Points()) {
		c.Fatalf("%x decoded to %T", from, cm)
	}
	c.Owned(cm)
	pts := PVs(cm.Points())
	for _, p := range pts {
		if !p.Inf() && !p.OnCurve() {
			c.Fatalf("%x decoded to a point %s off the curve", from, p)
		}
	}
	enc, err := cm.Serialize()
	Must(c, err, "serialising what %x decoded to", from)
	again, err := decodeCommitment(enc)
	Must(c, err, "decoding what %x was serialised to again", from)
	if again.Type() != cm.Type() || again.Equal(cm) != 1 || !samePts(PVs(again.Points()), pts) {
		c.Fatalf("%x decodes to %v but then to %v", from, pts, PVs(again.Points()))
	}
	return pts
}

func commitmentRoundTrip(c *C) {
	cm, pts, ty, what := drawCommitment(c)
	c.Key(what, ty, fmt.Sprint(pts))
	c.Label("%s kind %d", what, ty)
	c.Note("%s kind %d commitment %v", what, ty, pts)
	enc, err := cm.Serialize()
	Must(c, err, "Serialize %v", pts)
	keep := append([]byte{}, enc...)
	back := cm
	switch x := cm.(type) {
	case *dealings.SummationCommitment:
		back = x.PolynomialCommitment
	case *dealings.InterpolationCommitment:
		back = x.PolynomialCommitment
	}
	bare, err := back.Serialize()
	Must(c, err, "Serialize")
	if decoded, err := decodeCommitment(enc); what == "bare" || err == nil {
		Must(c, err, "decoding %x", enc)
		if decoded.Type() != ty || !samePts(goodCommitment(c, decoded, enc), pts) || decoded.Equal(back) != 1 || back.Equal(decoded) != 1 {
			c.Fatalf("commitment %v comes back as kind %d %v", pts, decoded.Type(), PVs(decoded.Points()))
		}
		for i := range enc {
			enc[i] ^= 0xff
		}
		if !samePts(PVs(decoded.Points()), pts) {
			c.Fatalf("commitment changed with the bytes it was decoded from")
		}
		if decoded.CurveType() != K {
			c.Fatalf("curve %d", decoded.CurveType())
		}
	}
	if !samePts(PVs(cm.Points()), pts) {
		c.Fatalf("serialising changed the commitment")
	}
	decoded, err := decodeCommitment(bare)
	Must(c, err, "decoding %x", bare)
	if decoded.Type() != ty || !samePts(PVs(decoded.Points()), pts) {
		c.Fatalf("commitment %v comes back as kind %d %v", pts, decoded.Type(), PVs(decoded.Points()))
	}
	again, err := cm.Serialize()
	Must(c, err, "Serialize")
	if !bytes.Equal(again, keep) {
		c.Fatalf("another serialisation differs")
	}
}

func commitmentMutated(c *C) {
	cm, pts, ty, _ := drawCommitment(c)
	switch x := cm.(type) {
	case *dealings.SummationCommitment:
		cm = x.PolynomialCommitment
	case *dealings.InterpolationCommitment:
		cm = x.PolynomialCommitment
	}
	enc, err := cm.Serialize()
	Must(c, err, "Serialize %v", pts)
	var out []byte
	var what string
	var rule, elem int
	var val []byte
	if OneIn(c, 3, "bytes") {
		out, what, rule = mutateBytes(c, enc)
	} else {
		out, what, rule, elem, val = mutateTree(c, enc, 34, false, badPoint, otherPointBytes)
	}
	c.Key(out)
	c.Note("commitment %v, %s: %x", pts, what, out)
	in := append([]byte{}, out...)
	d, err := decodeCommitment(out)
	c.Label("%s accepted=%v", what, err == nil)
	if !bytes.Equal(in, out) {
		c.Fatalf("decoding changed its input")
	}
	if bytes.Equal(out, enc) {
		c.Trivial()
		rule = mustElem
		val = append([]byte{1}, pts[elem].Bytes()...)
	}
	var got []ref.Pt
	if err == nil {
		got = goodCommitment(c, d, out)
		for _, p := range got {
			if !bytes.Contains(out, p.Bytes()) && !splitString(out) {
				c.Fatalf("%x decodes to %v, which it does not contain", out, got)
			}
		}
	}
	switch rule {
	case mustErr:
		MustErr(c, err, "decoding %x (%s)", out, what)
	case mustSame:
		if err == nil && (d.Type() != ty || !samePts(got, pts)) {
			c.Fatalf("%x (%s) decodes to %v, want %v", out, what, got, pts)
		}
	case mustElem:
		Must(c, err, "decoding %x (%s)", out, what)
		want := append([]ref.Pt{}, pts...)
		want[elem], _ = ref.Decode(val[1:])
		if d.Type() != ty || !samePts(got, want) {
			c.Fatalf("%x (%s) decodes to %v, want %v", out, what, got, want)
		}
	}
}

func keysDecode(c *C) {
	if Bool(c, "public") {
		sk := NonZero(c, "sk")
		k := mega.NewMEGaPrivateKey(S(sk)).PublicKey()
		if !PV(k.PublicPoint()).Eq(ref.MulG(sk)) {
			c.Fatalf("public key of %x is %s", sk, PV(k.PublicPoint()))
		}
		enc := k.Serialize()
		d, err := mega.PublicKey.Deserialize(K, enc)
		Must(c, err, "public key %x", enc)
		if !bytes.Equal(d.Serialize(), enc) || !PV(d.PublicPoint()).Eq(ref.MulG(sk)) || d.CurveType() != K {
			c.Fatalf("public key %x comes back as %x", enc, d.Serialize())
		}
		Must(c, mega.VerifyMegaPublicKey(K, enc), "public key %x", enc)
		Spoil(d)
		d, err = mega.PublicKey.Deserialize(K, enc)
		Must(c, err, "public key %x", enc)
		if !bytes.Equal(d.Serialize(), enc) {
			c.Fatalf("public key %x comes back as %x after the one decoded before changed", enc, d.Serialize())
		}
		c.Owned(d, k)
		bad := badPoint(c, append([]byte{1}, enc...))
		if len(bad) > 0 && bad[0] == 1 {
			bad = bad[1:]
		}
		c.Key("pub", bad)
		c.Label("public")
		c.Note("public key, altered: %x", bad)
		w, ok := ref.Decode(bad)
		ok = ok && len(bad) == 33
		d, err = mega.PublicKey.Deserialize(K, bad)
		if (err == nil) != ok || ok && !PV(d.PublicPoint()).Eq(w) {
			c.Fatalf("public key %x: %v, want ok=%v", bad, err, ok)
		}
		if e := mega.VerifyMegaPublicKey(K, bad); (e == nil) != ok {
			c.Fatalf("public key %x: %v, want ok=%v", bad, e, ok)
		}
		return
	}
	v := Scalar(c, "sk")
	k := mega.NewMEGaPrivateKey(S(v))
	enc := k.Serialize()
	d, err := mega.PrivateKey.Deserialize(K, enc)
	Must(c, err, "private key %x", enc)
	if V(d.SecretScalar()).Cmp(v) != 0 || !bytes.Equal(d.Serialize(), enc) || d.CurveType() != K {
		c.Fatalf("private key %x comes back as %x", v, V(d.SecretScalar()))
	}
	if !PV(d.PublicKey().PublicPoint()).Eq(PV(k.PublicKey().PublicPoint())) {
		c.Fatalf("the public key of %x after decoding differs", v)
	}
	c.Owned(d.PublicKey())
	Spoil(d)
	d, err = mega.PrivateKey.Deserialize(K, enc)
	Must(c, err, "private key %x", enc)
	if !bytes.Equal(d.Serialize(), enc) {
		c.Fatalf("private key %x comes back as %x after the one decoded before changed", enc, d.Serialize())
	}
	c.Owned(d, k)
	var bad []byte
	if Bool(c, "tagged") {
		bad = badScalar(c, append([]byte{1}, enc...))
		if len(bad) > 1 && bad[0] == 1 {
			bad = bad[1:]
		}
	} else {
		bad = Bytes(c, 40, "bytes")
	}
	c.Key("priv", bad)
	c.Label("private")
	c.Note("private key bytes %x", bad)
	ok := len(bad) == 32 && new(big.Int).SetBytes(bad).Cmp(ref.Q) < 0
	d, err = mega.PrivateKey.Deserialize(K, bad)
	if (err == nil) != ok || ok && !bytes.Equal(d.Serialize(), bad) {
		c.Fatalf("private key %x: %v, want ok=%v", bad, err, ok)
	}
	for _, ct := range []int{0, 2, -1} {
		if _, err := mega.PrivateKey.Deserialize(curve.EccCurveType(ct), enc); err == nil {
			c.Fatalf("private key of curve %d", ct)
		}
		if _, err := mega.PublicKey.Deserialize(curve.EccCurveType(ct), ref.G().Bytes()); err == nil {
			c.Fatalf("public key of curve %d", ct)
		}
	}
}

// elementsMutated are single scalars and points in CBOR
func elementsMutated(c *C) {
	point := Bool(c, "point")
	var enc []byte
	var err error
	if point {
		enc, err = cbor.Marshal(libPoint(c, AnyPoint(c, "p")))
	} else {
		enc, err = cbor.Marshal(S(Scalar(c, "s")))
	}
	Must(c, err, "Marshal")
	it, err := ParseCBOR(enc)
	if err != nil || it.Major != 2 {
		c.Fatalf("harness: %x: %v", enc, err)
	}
	valid := it.Bytes
	switch Int(c, 0, 5, "how") {
	case 0:
		if point {
			it.Bytes = otherPointBytes(c, valid)
		} else {
			it.Bytes = otherScalarBytes(c, valid)
		}
	case 1, 2:
		if point {
			it.Bytes = badPoint(c, valid)
		} else {
			it.Bytes = badScalar(c, valid)
		}
	case 3:
		it = DrawItem(c, 2, "item")
	case 4:
		it.Indef = true
	case 5:
	}
	out := it.Enc()
	if OneIn(c, 5, "bytes") {
		out, _, _ = mutateBytes(c, out)
	}
	if bytes.Equal(out, enc) {
		c.Trivial()
	}
	c.Key(point, out)
	c.Note("point=%v %x", point, out)
	// by the book
	var raw []byte
	ok := false
	if x, err := ParseCBOR(out); err == nil && x.Major == 2 && !x.Indef {
		raw, ok = x.Bytes, true
	}
	definite := ok
	ok = ok && len(raw) > 0 && raw[0] == 1
	old := Scalar(c, "old")
	if point {
		var want ref.Pt
		if ok {
			want, ok = ref.Decode(raw[1:])
			ok = ok && len(raw) == 34
		}
		p := Pt(ref.MulG(old)).(*curve.Secp256k1Point)
		err = cbor.Unmarshal(out, p)
		if err == nil && ok && !PV(p).Eq(want) {
			c.Fatalf("%x decodes to %s, want %s", out, PV(p), want)
		}
		if err == nil && !ok && definite || err == nil && !PV(p).Inf() && !PV(p).OnCurve() {
			c.Fatalf("%x decodes to %s", out, PV(p))
		}
		if err != nil && !PV(p).Eq(ref.MulG(old)) {
			c.Fatalf("%x is refused but changes the point", out)
		}
	} else {
		ok = ok && len(raw) == 33 && new(big.Int).SetBytes(raw[1:]).Cmp(ref.Q) < 0
		s := S(old).(*curve.Secp256k1Scalar)
		err = cbor.Unmarshal(out, s)
		if err == nil && ok && V(s).Cmp(new(big.Int).SetBytes(raw[1:])) != 0 {
			c.Fatalf("%x decodes to %x", out, V(s))
		}
		if err == nil && !ok && definite || err == nil && V(s).Cmp(ref.Q) >= 0 {
			c.Fatalf("%x decodes to %x", out, V(s))
		}
		if err != nil && V(s).Cmp(old) != 0 {
			c.Fatalf("%x is refused but changes the scalar", out)
		}
	}
	if ok {
		Must(c, err, "decoding %x", out)
	}
	c.Label("point=%v accepted=%v", point, err == nil)
}

func randomDecode(c *C) {
	var b []byte
	if Bool(c, "cbor") {
		it := DrawItem(c, 3, "item")
		if OneIn(c, 3, "shaped") { // the right fields with anything in them
			tag := Pick(c, []string{"CommitType", "CommitmentType"}, "tag")
			field := func(s string) *Item { return &Item{Major: 3, Bytes: []byte(s)} }
			num := func(l string) *Item {
				if OneIn(c, 4, l) {
					return DrawItem(c, 1, l)
				}
				return &Item{Major: 0, Arg: uint64(Int(c, 0, 3, l))}
			}
			it = &Item{Major: 5, Kids: []*Item{field("CurveType"), num("curve"), field(tag), num("kind"), field("Message"), it}}
			if Bool(c, "array") {
				it.Kids[5] = &Item{Major: 4}
				for k := Int(c, 0, 4, "n"); k > 0; k-- {
					it.Kids[5].Kids = append(it.Kids[5].Kids, DrawItem(c, 1, "el"))
				}
			}
		}
		b = it.Enc()
	} else {
		b = Bytes(c, 200, "bytes")
	}
	c.Key(b)
	c.Note("%x", b)
	if len(b) == 0 || b[0]>>5 < 2 || b[0]>>5 > 5 {
		c.Trivial()
	}
	n := 0
	if o, err := poly.Commitment.Deserialize(b); err == nil {
		goodOpening(c, o, b)
		n++
	}
	if decodeCommitment != nil {
		if cm, err := decodeCommitment(b); err == nil {
			goodCommitment(c, cm, b)
			n++
		}
	}
	s := S(big.NewInt(1)).(*curve.Secp256k1Scalar)
	if cbor.Unmarshal(b, s) == nil {
		n++
	}
	if V(s).Cmp(ref.Q) >= 0 {
		c.Fatalf("%x decodes to %x", b, V(s))
	}
	p := Pt(ref.G()).(*curve.Secp256k1Point)
	if cbor.Unmarshal(b, p) == nil {
		n++
	}
	if q := PV(p); !q.Inf() && !q.OnCurve() {
		c.Fatalf("%x decodes to %s", b, q)
	}
	if k, err := mega.PublicKey.Deserialize(K, b); err == nil {
		n++
		if !bytes.Equal(k.Serialize(), b) {
			c.Fatalf("public key %x comes back as %x", b, k.Serialize())
		}
	}
	if k, err := mega.PrivateKey.Deserialize(K, b); err == nil {
		n++
		if !bytes.Equal(k.Serialize(), b) {
			c.Fatalf("private key %x comes back as %x", b, k.Serialize())
		}
	}
	c.Label("accepted by %d", n)
}
