package hx

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"sort"

	"pgregory.net/rapid"

	"verifharness/ref"
)

// Expand turns a drawn number into n pseudo-random bytes; the draw stays the
// only source of randomness, so cases replay and shrink
func Expand(seed uint64, n int) []byte {
	var k [8]byte
	binary.LittleEndian.PutUint64(k[:], seed)
	var out []byte
	for i := 0; len(out) < n; i++ {
		var c [4]byte
		binary.LittleEndian.PutUint32(c[:], uint32(i))
		h := sha256.Sum256(append(k[:], c[:]...))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func Int(c *C, lo, hi int, label string) int {
	if lo >= hi {
		return lo
	}
	return int(c.draw(label, uint64(hi-lo)+1, func() uint64 { return uint64(rapid.IntRange(lo, hi).Draw(c.T, label) - lo) })) + lo
}
func Bool(c *C, label string) bool {
	return c.draw(label, 2, func() uint64 {
		if rapid.Bool().Draw(c.T, label) {
			return 1
		}
		return 0
	}) == 1
}

// OneIn is true in about one of n cases; shrinks to false
func OneIn(c *C, n int, label string) bool { return Int(c, 0, n-1, label) == n-1 }

// U64 draws a seed; two draws, as rapid favours small numbers
func U64(c *C, label string) uint64 {
	return c.draw(label, 0, func() uint64 {
		return rapid.Uint64().Draw(c.T, label) ^ rapid.Uint64().Draw(c.T, label+"'")*0x9e3779b97f4a7c15
	})
}
func Pick[T any](c *C, xs []T, label string) T {
	return xs[Int(c, 0, len(xs)-1, label)]
}

// ModInt draws an integer modulo m with a strong bias to where carries,
// reductions and encodings go wrong
func ModInt(c *C, m *big.Int, label string) *big.Int {
	half := new(big.Int).Rsh(m, 1)
	small := func() *big.Int { return big.NewInt(int64(Int(c, 0, 300, label+".s"))) }
	var v *big.Int
	switch Int(c, 0, 21, label+".kind") {
	case 0:
		v = new(big.Int)
	case 1:
		v = big.NewInt(1)
	case 2:
		v = small()
	case 3:
		v = new(big.Int).Sub(m, big.NewInt(1))
	case 4:
		v = new(big.Int).Sub(m, small())
	case 5:
		v = new(big.Int).Add(half, big.NewInt(int64(Int(c, -3, 3, label+".d"))))
	case 6: // power of two
		v = new(big.Int).Lsh(big.NewInt(1), uint(Int(c, 0, 255, label+".k")))
	case 7: // all ones
		v = new(big.Int).Lsh(big.NewInt(1), uint(Int(c, 0, 256, label+".k")))
		v.Sub(v, big.NewInt(1))
	case 8: // two bits
		v = new(big.Int).Lsh(big.NewInt(1), uint(Int(c, 0, 255, label+".k")))
		v.Add(v, new(big.Int).Lsh(big.NewInt(1), uint(Int(c, 0, 255, label+".k2"))))
	case 9: // leading zero bytes
		v = new(big.Int).SetBytes(Expand(U64(c, label+".r"), 32-Int(c, 1, 31, label+".z")))
	case 10: // trailing zero bytes
		v = new(big.Int).SetBytes(Expand(U64(c, label+".r"), 32))
		z := uint(8 * Int(c, 1, 31, label+".z"))
		v.Lsh(v.Rsh(v, z), z)
	case 11: // a word of zeros or ones inside
		b := Expand(U64(c, label+".r"), 32)
		w := Int(c, 0, 3, label+".w")
		f := byte(0)
		if Bool(c, label+".ff") {
			f = 0xff
		}
		for i := 0; i < 8; i++ {
			b[8*w+i] = f
		}
		v = new(big.Int).SetBytes(b)
	case 12: // close to 2^256 - m, the reduction constant
		v = new(big.Int).Lsh(big.NewInt(1), 256)
		v.Sub(v, m)
		v.Add(v, big.NewInt(int64(Int(c, -2, 2, label+".d"))))
	case 13: // m / small
		v = new(big.Int).Div(m, big.NewInt(int64(Int(c, 1, 20, label+".s"))))
	default:
		v = new(big.Int).SetBytes(Expand(U64(c, label+".r"), 32))
	}
	return v.Mod(v, m)
}
func Scalar(c *C, label string) *big.Int  { return ModInt(c, ref.Q, label) }
func FieldEl(c *C, label string) *big.Int { return ModInt(c, ref.P, label) }

// RandScalar is (almost) uniform
func RandScalar(c *C, label string) *big.Int {
	v := new(big.Int).SetBytes(Expand(U64(c, label), 32))
	return v.Mod(v, ref.Q)
}
func NonZero(c *C, label string) *big.Int {
	v := Scalar(c, label)
	if v.Sign() == 0 {
		return big.NewInt(1)
	}
	return v
}

var lens = []int{0, 1, 2, 3, 4, 7, 8, 16, 20, 28, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 66, 96, 119, 120, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000}

// Len draws a length with boundaries favoured
func Len(c *C, max int, label string) int {
	var n int
	switch Int(c, 0, 9, label+".lk") {
	case 0, 1, 2:
		n = Int(c, 0, 80, label+".l")
	case 3:
		n = Int(c, 0, max, label+".l")
	case 4:
		n = 32
	default:
		n = Pick(c, lens, label+".l")
	}
	if n > max {
		n = max
	}
	return n
}

// Content draws n bytes
func Content(c *C, n int, label string) []byte {
	switch Int(c, 0, 7, label+".ck") {
	case 0:
		return make([]byte, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		b := make([]byte, n)
		if n > 0 {
			b[Int(c, 0, n-1, label+".pos")] = byte(Int(c, 1, 255, label+".b"))
		}
		return b
	case 3: // leading zeros
		b := Expand(U64(c, label+".r"), n)
		for i := 0; i < n && i < Int(c, 1, 8, label+".z"); i++ {
			b[i] = 0
		}
		return b
	}
	return Expand(U64(c, label+".r"), n)
}

// Bytes draws a byte string of boundary-biased length up to max
func Bytes(c *C, max int, label string) []byte { return Content(c, Len(c, max, label), label) }

var longs = []int{513, 600, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 70000}

// Data draws a byte string that may be of any length: associated data, a hash,
// randomness, the input of a seed
func Data(c *C, label string) []byte {
	if OneIn(c, 12, label+".long") {
		return Expand(U64(c, label+".r"), Pick(c, longs, label+".ll"))
	}
	return Bytes(c, 600, label)
}

// AlterBytes returns a different byte string: a flipped bit, an appended or
// removed byte, a changed end, or other bytes altogether
func AlterBytes(c *C, b []byte, label string) []byte {
	r := append([]byte{}, b...)
	k := Int(c, 0, 6, label+".alt")
	if len(b) == 0 && (k < 3 || k == 4 || k == 6) {
		k = 3
	}
	switch k {
	case 0:
		i := Int(c, 0, len(r)*8-1, label+".bit")
		r[i/8] ^= 1 << (i % 8)
	case 1: // uniformly
		i := int(U64(c, label+".ubit") % uint64(len(r)*8))
		r[i/8] ^= 1 << (i % 8)
	case 2: // drop the last byte
		r = r[:len(r)-1]
	case 3: // append a byte
		r = append(r, byte(Int(c, 0, 255, label+".add")))
	case 4: // change the last byte
		r[len(r)-1] ^= byte(Int(c, 1, 255, label+".x"))
	case 5: // prepend a zero
		r = append([]byte{0}, r...)
	case 6: // change the first byte
		r[0] ^= byte(Int(c, 1, 255, label+".x"))
	}
	return r
}

var nodes = []int{0, 1, 2, 3, 4, 5, 9, 10, 63, 64, 126, 127, 128, 129, 253, 254, 255, 256, 257, 1023, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1}

// Node draws a node index over the whole 32 bit range
func Node(c *C, label string) int {
	switch Int(c, 0, 5, label+".nk") {
	case 0, 1:
		return Int(c, 0, 12, label+".n")
	case 2, 3:
		return Pick(c, nodes, label+".n")
	case 4:
		return Int(c, 0, 400, label+".n")
	}
	return int(uint32(binary.LittleEndian.Uint32(Expand(U64(c, label+".r"), 4))))
}

// OtherNode draws an index different from n, often one that collides with it
// when truncated or shifted by one
func OtherNode(c *C, n int, label string) int {
	var r int
	switch Int(c, 0, 6, label+".ok") {
	case 0:
		r = n + 1
	case 1:
		r = n - 1
	case 2:
		r = n ^ 256
	case 3:
		r = n ^ 65536
	case 4:
		r = n ^ (1 << 31)
	case 5:
		r = n ^ 1
	default:
		r = Node(c, label)
	}
	if r < 0 || r >= 1<<32 || r == n {
		r = (n ^ 1)
	}
	return r
}

var sizes = []int{8, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 131, 199, 200, 201, 254, 255, 256, 257, 258, 300}

// Size draws a number of things: lo to hi, and once in every so many cases a
// larger one up to most, at the boundaries of blocks and bytes
func Size(c *C, lo, hi, every, most int, label string) int {
	if OneIn(c, every, label+" large") {
		var ok []int
		for _, n := range sizes {
			if n > hi && n <= most {
				ok = append(ok, n)
			}
		}
		return ok[U64(c, label+" size")%uint64(len(ok))]
	}
	return Int(c, lo, hi, label)
}

// NodeSet draws n distinct indices in a random order
func NodeSet(c *C, n int, label string) []int {
	if Int(c, 0, 2, label+".plain") == 0 {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return Shuffle(c, r, label)
	}
	seen := map[int]bool{}
	var r []int
	var bulk []byte
	if n > 40 { // mixed: near each other, or anywhere
		bulk = Expand(U64(c, label+".bulk"), 5*n)
	}
	for len(r) < n {
		var v int
		if bulk == nil {
			v = Node(c, label)
		} else if v = int(binary.LittleEndian.Uint32(bulk)); bulk[4]&1 == 0 {
			v %= 2 * n
		}
		if bulk != nil {
			bulk = bulk[5:]
		}
		for seen[v] {
			v = (v + 1) % (1 << 32)
		}
		seen[v] = true
		r = append(r, v)
	}
	return r
}

// Shuffle returns a permutation
func Shuffle[T any](c *C, xs []T, label string) []T {
	r := append([]T{}, xs...)
	if len(xs) > 40 {
		b := Expand(U64(c, label+".bulk"), 4*len(xs))
		for i := len(r) - 1; i > 0; i-- {
			j := int(binary.LittleEndian.Uint32(b[4*i:])) % (i + 1)
			r[i], r[j] = r[j], r[i]
		}
		return r
	}
	for i := len(r) - 1; i > 0; i-- {
		j := Int(c, 0, i, label+".sh")
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Subset draws k of the elements, in their order
func Subset[T any](c *C, xs []T, k int, label string) []T {
	idx := make([]int, len(xs))
	for i := range idx {
		idx[i] = i
	}
	idx = Shuffle(c, idx, label)[:k]
	in := map[int]bool{}
	for _, i := range idx {
		in[i] = true
	}
	var r []T
	for i, x := range xs {
		if in[i] {
			r = append(r, x)
		}
	}
	return r
}

// Path draws a derivation path
func Path(c *C, max int, label string) [][]byte {
	n := Int(c, 0, max, label+".n")
	if OneIn(c, 50, label+" long") { // longer than a BIP32 depth byte counts, too
		n = Pick(c, []int{17, 33, 65, 129, 255, 256, 257, 270}, label+".n")
		p := make([][]byte, n)
		x := U64(c, label+" bulk")
		for i := range p {
			p[i] = Expand(x+uint64(i), 4)
		}
		return p
	}
	p := make([][]byte, n)
	for i := range p {
		switch Int(c, 0, 4, label+".k") {
		case 0:
			p[i] = Data(c, label)
		case 1:
			p[i] = Content(c, 8, label)
		default:
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, uint32(Node(c, label)))
			p[i] = b
		}
	}
	return p
}

// PolyN draws a polynomial with exactly n coefficients, some zero
func PolyN(c *C, n int, label string) ref.Poly {
	p := make(ref.Poly, n)
	for i := range p {
		p[i] = Scalar(c, label)
	}
	return p
}

// RandPoly draws n (almost) uniform coefficients with the given constant
func RandPoly(c *C, constant *big.Int, n int, label string) ref.Poly {
	p := make(ref.Poly, n)
	p[0] = constant
	for i := 1; i < n; i++ {
		p[i] = RandScalar(c, label)
	}
	return p
}

// AnyPoint draws a point: identity, generators, small multiples, opposite
// ones, points with extreme coordinates, hashed and random ones
func AnyPoint(c *C, label string) ref.Pt {
	switch Int(c, 0, 9, label+".pk") {
	case 0:
		return ref.Id()
	case 1:
		return ref.G()
	case 2:
		return ref.H()
	case 3:
		return ref.MulG(Scalar(c, label))
	case 4:
		return ref.G().Neg()
	case 5: // coordinates with leading zero bytes, or above the group order
		x := big.NewInt(int64(Int(c, 1, 3000, label+".x")))
		switch Int(c, 0, 2, label+".xt") {
		case 1:
			x.Sub(ref.P, x)
		case 2:
			x.Add(ref.Q, x)
		}
		for {
			if p, ok := ref.LiftX(x, Bool(c, label+".odd")); ok {
				return p
			}
			x.Add(x, big.NewInt(1))
			if x.Cmp(ref.P) >= 0 {
				x.SetInt64(1)
			}
		}
	}
	return ref.MulG(RandScalar(c, label))
}

// NonIdPoint draws a point other than the identity
func NonIdPoint(c *C, label string) ref.Pt {
	p := AnyPoint(c, label)
	if p.Inf() {
		return ref.G()
	}
	return p
}

// OtherScalar draws a value different from v
func OtherScalar(c *C, v *big.Int, label string) *big.Int {
	var r *big.Int
	switch Int(c, 0, 6, label+".os") {
	case 0:
		r = ref.Add(v, big.NewInt(1))
	case 1:
		r = ref.Sub(v, big.NewInt(1))
	case 2:
		r = ref.Neg(v)
	case 3:
		r = new(big.Int)
	case 4: // one bit
		r = new(big.Int).Xor(v, new(big.Int).Lsh(big.NewInt(1), uint(Int(c, 0, 255, label+".bit"))))
		r.Mod(r, ref.Q)
	case 5:
		r = ref.Add(v, Scalar(c, label))
	default:
		r = RandScalar(c, label)
	}
	if r.Cmp(v) == 0 {
		r = ref.Add(v, big.NewInt(1))
	}
	return r
}

// OtherPoint draws a point different from p
func OtherPoint(c *C, p ref.Pt, label string) ref.Pt {
	var r ref.Pt
	switch Int(c, 0, 4, label+".op") {
	case 0:
		r = p.Neg()
	case 1:
		r = p.Add(ref.G())
	case 2:
		r = ref.Id()
	case 3:
		r = p.Add(ref.H())
	default:
		r = AnyPoint(c, label)
	}
	if r.Eq(p) {
		r = p.Add(ref.G())
	}
	return r
}

// Sister returns another set of as many indices which agrees with the given
// one in some ways: its ends, its sum, all but one member, or a shift
func Sister(c *C, set []int, label string) []int {
	s := append([]int{}, set...)
	sort.Ints(s)
	in := map[int]bool{}
	for _, x := range s {
		in[x] = true
	}
	free := func(v int) bool { return v >= 0 && v < 1<<32 && !in[v] }
	put := func(i, v int) { delete(in, s[i]); s[i] = v; in[v] = true }
	n := len(s)
	switch Int(c, 0, 3, label+".sis") {
	case 0: // the same sum
		if n > 1 {
			i := Int(c, 0, n-2, label+".i")
			j := Int(c, i+1, n-1, label+".j")
			for d := 1; d < 4; d++ {
				for _, e := range []int{d, -d} {
					a, b := s[i]+e, s[j]-e
					if free(a) && free(b) && a != b {
						put(i, a)
						put(j, b)
						return Shuffle(c, s, label)
					}
				}
			}
		}
	case 1: // the same ends
		if n > 2 {
			i := Int(c, 1, n-2, label+".i")
			for v := s[0] + 1; v < s[n-1]; v++ {
				if free(v) && (v > s[i] || s[i] > s[n-2]-3) {
					put(i, v)
					return Shuffle(c, s, label)
				}
				if v > s[0]+1000 {
					break
				}
			}
		}
	case 2: // shifted
		if s[n-1]+1 < 1<<32 {
			for i := range s {
				s[i]++
			}
			return Shuffle(c, s, label)
		}
	}
	i := Int(c, 0, n-1, label+".i")
	v := OtherNode(c, s[i], label)
	for in[v] {
		v = (v + 1) % (1 << 32)
	}
	put(i, v)
	return Shuffle(c, s, label)
}
