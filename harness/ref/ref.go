// Package ref is an independent model of the mathematics and byte formats the
// library is supposed to implement. It is written from the public standards
// (SEC1/SEC2, RFC 9380, RFC 8439, BIP32) with math/big and crypto/* only (plus
// btcec as a fast scalar multiplication, cross-checked against the affine
// double-and-add here) and imports nothing of the code under test.
package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"

	"github.com/btcsuite/btcd/btcec"
)

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return v
}

var (
	// Q is the group order, P the field prime
	Q  = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	P  = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	Gx = hx("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	Gy = hx("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	// Half is floor(Q/2): s is low iff s <= Half
	Half = new(big.Int).Rsh(Q, 1)
	one  = big.NewInt(1)
	zero = new(big.Int)
)

// ---- integers modulo m

func I(v int64) *big.Int             { return big.NewInt(v) }
func Mod(a, m *big.Int) *big.Int     { return new(big.Int).Mod(a, m) }
func AddM(a, b, m *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, m) }
func SubM(a, b, m *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, m) }
func MulM(a, b, m *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, m) }
func NegM(a, m *big.Int) *big.Int    { r := new(big.Int).Neg(a); return r.Mod(r, m) }
func InvM(a, m *big.Int) *big.Int { // 0 for 0
	r := new(big.Int).ModInverse(new(big.Int).Mod(a, m), m)
	if r == nil {
		return new(big.Int)
	}
	return r
}
func Add(a, b *big.Int) *big.Int { return AddM(a, b, Q) }
func Sub(a, b *big.Int) *big.Int { return SubM(a, b, Q) }
func Mul(a, b *big.Int) *big.Int { return MulM(a, b, Q) }
func Neg(a *big.Int) *big.Int    { return NegM(a, Q) }
func Inv(a *big.Int) *big.Int    { return InvM(a, Q) }

// B32 is the 32 byte big-endian encoding
func B32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

// SqrtP returns a square root modulo P, nil if there is none
func SqrtP(a *big.Int) *big.Int {
	e := new(big.Int).Add(P, one)
	e.Rsh(e, 2)
	r := new(big.Int).Exp(new(big.Int).Mod(a, P), e, P)
	if MulM(r, r, P).Cmp(Mod(a, P)) != 0 {
		return nil
	}
	return r
}

// ---- the curve y^2 = x^3 + 7 over GF(P)

// Pt is an affine point; X == nil is the identity
type Pt struct{ X, Y *big.Int }

func Id() Pt { return Pt{} }
func G() Pt  { return Pt{new(big.Int).Set(Gx), new(big.Int).Set(Gy)} }

func (a Pt) Inf() bool { return a.X == nil }
func (a Pt) Eq(b Pt) bool {
	if a.Inf() || b.Inf() {
		return a.Inf() && b.Inf()
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}
func (a Pt) OnCurve() bool {
	if a.Inf() {
		return true
	}
	if a.X.Sign() < 0 || a.Y.Sign() < 0 || a.X.Cmp(P) >= 0 || a.Y.Cmp(P) >= 0 {
		return false
	}
	return MulM(a.Y, a.Y, P).Cmp(rhs(a.X)) == 0
}
func rhs(x *big.Int) *big.Int { return AddM(MulM(MulM(x, x, P), x, P), I(7), P) }

func (a Pt) Neg() Pt {
	if a.Inf() {
		return a
	}
	return Pt{a.X, NegM(a.Y, P)}
}
func (a Pt) Add(b Pt) Pt {
	if a.Inf() {
		return b
	}
	if b.Inf() {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		if a.Y.Cmp(b.Y) != 0 || a.Y.Sign() == 0 {
			return Pt{}
		}
		l = MulM(MulM(I(3), MulM(a.X, a.X, P), P), InvM(AddM(a.Y, a.Y, P), P), P)
	} else {
		l = MulM(SubM(b.Y, a.Y, P), InvM(SubM(b.X, a.X, P), P), P)
	}
	x := SubM(SubM(MulM(l, l, P), a.X, P), b.X, P)
	return Pt{x, SubM(MulM(l, SubM(a.X, x, P), P), a.Y, P)}
}
func (a Pt) Sub(b Pt) Pt { return a.Add(b.Neg()) }

// MulSlow is plain affine double-and-add
func (a Pt) MulSlow(k *big.Int) Pt {
	k = Mod(k, Q)
	r := Pt{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(a)
		}
	}
	return r
}

// Mul is a scalar multiplication through btcec
func (a Pt) Mul(k *big.Int) Pt {
	k = Mod(k, Q)
	if a.Inf() || k.Sign() == 0 {
		return Pt{}
	}
	if k.Cmp(one) == 0 {
		return a
	}
	var x, y *big.Int
	if a.X.Cmp(Gx) == 0 && a.Y.Cmp(Gy) == 0 {
		x, y = btcec.S256().ScalarBaseMult(k.Bytes())
	} else {
		x, y = btcec.S256().ScalarMult(a.X, a.Y, k.Bytes())
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return Pt{}
	}
	return Pt{x, y}
}
func MulG(k *big.Int) Pt { return G().Mul(k) }

// Bytes is the 33 byte compressed encoding; 33 zero bytes for the identity
func (a Pt) Bytes() []byte {
	r := make([]byte, 33)
	if a.Inf() {
		return r
	}
	r[0] = 2 + byte(a.Y.Bit(0))
	a.X.FillBytes(r[1:])
	return r
}

// Uncompressed is the 65 byte encoding; 33 zero bytes for the identity
func (a Pt) Uncompressed() []byte {
	if a.Inf() {
		return a.Bytes()
	}
	r := make([]byte, 65)
	r[0] = 4
	a.X.FillBytes(r[1:33])
	a.Y.FillBytes(r[33:])
	return r
}

// LiftX returns the point with the given x and parity of y
func LiftX(x *big.Int, odd bool) (Pt, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	y := SqrtP(rhs(x))
	if y == nil {
		return Pt{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y = NegM(y, P)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// Decode parses the compressed (33), uncompressed (65) and identity (33 zero bytes) forms
func Decode(b []byte) (Pt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		return LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	case len(b) == 33 && b[0] == 0:
		for _, v := range b {
			if v != 0 {
				return Pt{}, false
			}
		}
		return Pt{}, true
	case len(b) == 65 && b[0] == 4:
		p := Pt{new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])}
		return p, p.OnCurve()
	}
	return Pt{}, false
}

func (a Pt) String() string { return hex.EncodeToString(a.Bytes()) }

var hPoint *Pt

// H is the second generator, derived with the reference hash to curve
func H() Pt {
	if hPoint == nil {
		h := HashToCurve([]byte("h"), []byte("ic-crypto-tecdsa-secp256k1-generator-h"))
		hPoint = &h
	}
	return *hPoint
}

// Pedersen is v*G + m*H
func Pedersen(v, m *big.Int) Pt { return MulG(v).Add(H().Mul(m)) }

// ---- RFC 9380

// XMD is expand_message_xmd with SHA-256
func XMD(msg, dst []byte, n int) []byte {
	if len(dst) > 255 {
		h := sha256.Sum256(append([]byte("H2C-OVERSIZE-DST-"), dst...))
		dst = h[:]
	}
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	var in []byte
	in = append(in, make([]byte, 64)...)
	in = append(in, msg...)
	in = append(in, byte(n>>8), byte(n), 0)
	in = append(in, dp...)
	b0 := sha256.Sum256(in)
	var out []byte
	prev := make([]byte, 32)
	for i := 1; len(out) < n; i++ {
		blk := make([]byte, 32)
		for j := range blk {
			blk[j] = b0[j] ^ prev[j]
		}
		blk = append(blk, byte(i))
		blk = append(blk, dp...)
		s := sha256.Sum256(blk)
		prev = s[:]
		out = append(out, s[:]...)
	}
	return out[:n]
}

// HashToInts is hash_to_field with L = 48 modulo m
func HashToInts(msg, dst []byte, count int, m *big.Int) []*big.Int {
	u := XMD(msg, dst, count*48)
	out := make([]*big.Int, count)
	for i := range out {
		out[i] = Mod(new(big.Int).SetBytes(u[i*48:(i+1)*48]), m)
	}
	return out
}

var (
	sswuA = hx("3F8731ABDD661ADCA08A5558F0F5D272E953D363CB6F0E5D405447C01A444533")
	sswuB = big.NewInt(1771)
	sswuZ = new(big.Int).Sub(P, big.NewInt(11))
	iso   = func() (r [4][4]*big.Int) {
		// RFC 9380 appendix E.1, lowest degree first
		s := [4][4]string{
			{"8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7", "07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581", "534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262", "8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c"},
			{"d35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b", "edadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14", "1", "0"},
			{"4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c", "c75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3", "29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931", "2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84"},
			{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b", "7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573", "6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f", "1"},
		}
		for i := range s {
			for j := range s[i] {
				r[i][j] = hx(s[i][j])
			}
		}
		return r
	}()
)

func evalP(c []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(c) - 1; i >= 0; i-- {
		r = AddM(MulM(r, x, P), c[i], P)
	}
	return r
}

// MapToCurve is the simplified SWU map of RFC 9380 section 6.6.2 (the plain
// definition, not the straight-line version) followed by the 3-isogeny
func MapToCurve(u *big.Int) Pt {
	u = Mod(u, P)
	gx := func(x *big.Int) *big.Int {
		return AddM(AddM(MulM(MulM(x, x, P), x, P), MulM(sswuA, x, P), P), sswuB, P)
	}
	zu2 := MulM(sswuZ, MulM(u, u, P), P)
	tv1 := InvM(AddM(MulM(zu2, zu2, P), zu2, P), P)
	x1 := MulM(MulM(NegM(sswuB, P), InvM(sswuA, P), P), AddM(one, tv1, P), P)
	if tv1.Sign() == 0 {
		x1 = MulM(sswuB, InvM(MulM(sswuZ, sswuA, P), P), P)
	}
	x, y := x1, SqrtP(gx(x1))
	if y == nil {
		x = MulM(zu2, x1, P)
		y = SqrtP(gx(x))
	}
	if u.Bit(0) != y.Bit(0) {
		y = NegM(y, P)
	}
	xn, xd := evalP(iso[0][:], x), evalP(iso[1][:], x)
	yn, yd := evalP(iso[2][:], x), evalP(iso[3][:], x)
	if xd.Sign() == 0 || yd.Sign() == 0 {
		return Pt{}
	}
	return Pt{MulM(xn, InvM(xd, P), P), MulM(y, MulM(yn, InvM(yd, P), P), P)}
}

// HashToCurve is hash_to_curve (random oracle) for secp256k1
func HashToCurve(msg, dst []byte) Pt {
	u := HashToInts(msg, dst, 2, P)
	return MapToCurve(u[0]).Add(MapToCurve(u[1]))
}

// ---- the library's random oracle framing

type RO struct {
	DST string
	in  map[string][]byte
}

func NewRO(dst string) *RO { return &RO{dst, map[string][]byte{}} }
func (r *RO) Raw(name string, ty byte, data []byte) *RO {
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(data)))
	r.in[name] = append(append([]byte{ty}, l[:]...), data...)
	return r
}
func (r *RO) Bytes(name string, b []byte) *RO { return r.Raw(name, 1, b) }
func (r *RO) Int(name string, v uint64) *RO {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return r.Raw(name, 2, b[:])
}
func (r *RO) Point(name string, p Pt) *RO { return r.Raw(name, 3, append([]byte{1}, p.Bytes()...)) }
func (r *RO) Scalar(name string, s *big.Int) *RO {
	return r.Raw(name, 4, append([]byte{1}, B32(s)...))
}
func (r *RO) Input() []byte {
	names := make([]string, 0, len(r.in))
	for n := range r.in {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []byte
	for _, n := range names {
		out = append(out, byte(len(n)))
		out = append(out, n...)
		out = append(out, r.in[n]...)
	}
	return out
}
func (r *RO) OutBytes(n int) []byte { return XMD(r.Input(), []byte(r.DST), n) }
func (r *RO) OutScalars(n int) []*big.Int {
	return HashToInts(r.Input(), []byte(r.DST+"-secp256k1"), n, Q)
}
func (r *RO) OutPoint() Pt { return HashToCurve(r.Input(), []byte(r.DST+"-secp256k1")) }

// ---- BIP32 public derivation, any index bytes, from a zero chain key

func Derive(pk Pt, path [][]byte) (child Pt, tweak *big.Int, chain []byte, ok bool) {
	chain = make([]byte, 32)
	tweak = new(big.Int)
	for _, idx := range path {
		m := hmac.New(sha512.New, chain)
		m.Write(pk.Bytes())
		m.Write(idx)
		o := m.Sum(nil)
		off := new(big.Int).SetBytes(o[:32])
		if off.Cmp(Q) >= 0 {
			return Pt{}, nil, nil, false
		}
		pk = pk.Add(MulG(off))
		if pk.Inf() {
			return Pt{}, nil, nil, false
		}
		tweak = Add(tweak, off)
		chain = o[32:]
	}
	return pk, tweak, chain, true
}

// ---- polynomials over the scalar field

type Poly []*big.Int

func (p Poly) At(x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(p) - 1; i >= 0; i-- {
		r = Add(Mul(r, x), p[i])
	}
	return r
}

// AtNode evaluates at node index i, that is at i+1
func (p Poly) AtNode(i int) *big.Int { return p.At(Mod(NodeX(i), Q)) }
func (p Poly) Coeff(i int) *big.Int {
	if i < len(p) {
		return p[i]
	}
	return new(big.Int)
}

// Deg is the number of coefficients up to the last non-zero one
func (p Poly) Deg() int {
	for i := len(p); i > 0; i-- {
		if p[i-1].Sign() != 0 {
			return i
		}
	}
	return 0
}

func NodeX(i int) *big.Int { return new(big.Int).Add(big.NewInt(int64(i)), one) }

// Lagrange returns the coefficients c_i with f(at) = sum c_i f(xs[i])
func Lagrange(xs []*big.Int, at *big.Int) []*big.Int {
	out := make([]*big.Int, len(xs))
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i != j {
				num = Mul(num, Sub(at, xs[j]))
				den = Mul(den, Sub(xs[i], xs[j]))
			}
		}
		out[i] = Mul(num, Inv(den))
	}
	return out
}

func NodeXs(idx []int) []*big.Int {
	r := make([]*big.Int, len(idx))
	for i := range idx {
		r[i] = NodeX(idx[i])
	}
	return r
}

// InterpAt is the value at `at` of the polynomial through (xs[i], ys[i])
func InterpAt(xs, ys []*big.Int, at *big.Int) *big.Int {
	r := new(big.Int)
	for i, c := range Lagrange(xs, at) {
		r = Add(r, Mul(c, ys[i]))
	}
	return r
}

// InterpPtAt is the same in the exponent
func InterpPtAt(xs []*big.Int, ys []Pt, at *big.Int) Pt {
	r := Pt{}
	for i, c := range Lagrange(xs, at) {
		r = r.Add(ys[i].Mul(c))
	}
	return r
}

// EvalPts evaluates a committed polynomial (points of coefficients) at x
func EvalPts(pts []Pt, x *big.Int) Pt {
	r := Pt{}
	for i := len(pts) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(pts[i])
	}
	return r
}

// ---- ECDSA

// HashInt is the leftmost 256 bits of the hash, modulo the order
func HashInt(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return Mod(new(big.Int).SetBytes(h), Q)
}

// ECDSAVerify is the textbook verification (no low-S rule)
func ECDSAVerify(pk Pt, h []byte, r, s *big.Int) bool {
	if pk.Inf() || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(Q) >= 0 || s.Cmp(Q) >= 0 {
		return false
	}
	w := Inv(s)
	R := MulG(Mul(HashInt(h), w)).Add(pk.Mul(Mul(r, w)))
	return !R.Inf() && Mod(R.X, Q).Cmp(r) == 0
}

// ---- ChaCha20 (RFC 8439), zero nonce, counter from 0

func ChaCha(key []byte, n int) []byte {
	var out []byte
	for ctr := uint32(0); len(out) < n; ctr++ {
		var s [16]uint32
		s[0], s[1], s[2], s[3] = 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574
		for i := 0; i < 8; i++ {
			s[4+i] = binary.LittleEndian.Uint32(key[4*i:])
		}
		s[12] = ctr
		w := s
		qr := func(a, b, c, d int) {
			rot := func(v uint32, k uint) uint32 { return v<<k | v>>(32-k) }
			w[a] += w[b]
			w[d] = rot(w[d]^w[a], 16)
			w[c] += w[d]
			w[b] = rot(w[b]^w[c], 12)
			w[a] += w[b]
			w[d] = rot(w[d]^w[a], 8)
			w[c] += w[d]
			w[b] = rot(w[b]^w[c], 7)
		}
		for i := 0; i < 10; i++ {
			qr(0, 4, 8, 12)
			qr(1, 5, 9, 13)
			qr(2, 6, 10, 14)
			qr(3, 7, 11, 15)
			qr(0, 5, 10, 15)
			qr(1, 6, 11, 12)
			qr(2, 7, 8, 13)
			qr(3, 4, 9, 14)
		}
		for i := range w {
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], w[i]+s[i])
			out = append(out, b[:]...)
		}
	}
	return out[:n]
}

// Seed derivation: seeds are 32 byte XMD outputs
func Seed(in []byte, dst string) []byte { return XMD(in, []byte(dst), 32) }

// Stream reads canonical scalars from a key stream in 32 byte blocks
type Stream struct {
	Key []byte
	Off int
}

func (s *Stream) Next(n int) []byte {
	b := ChaCha(s.Key, s.Off+n)[s.Off:]
	s.Off += n
	return b
}
func (s *Stream) Scalar() *big.Int {
	for {
		v := new(big.Int).SetBytes(s.Next(32))
		if v.Cmp(Q) < 0 {
			return v
		}
	}
}

func Hex(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x…(%d bytes)", b[:48], len(b))
	}
	return hex.EncodeToString(b)
}
