package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/seed"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP21(t *testing.T) {
	Run(t, "P21", []Sub{
		{"seeds", "a seed from bytes, a generator or a stream, and a chain of derivations with any domain separators; all count", 8000, seedChains},
		{"stream", "a generator read by a program of reads (numbers, fills of dirty buffers, in-place and separate XORs, scalars) of any sizes; non-trivial when it reads something", 8000, streamReads},
		{"different", "two seeds or chains that differ in one place; all count", 6000, seedsDiffer},
		{"scalars", "scalars drawn from a scripted generator whose blocks are often not canonical; all count", 8000, scalarDraws},
		{"keys", "keys and polynomials generated from a seed; all count", 2500, seedKeys},
	})
}

// chain is a seed of the library with its value by the model
type chain struct {
	s   *seed.Seed
	v   []byte
	how string
}

func startSeed(c *C) chain {
	in := Data(c, "in")
	switch Int(c, 0, 3, "start") {
	case 0:
		dst := string(drawDST(c))
		ch := chain{nil, ref.Seed(in, dst), fmt.Sprintf("NewSeed(%s,%q)", ref.Hex(in), dst)}
		lent(c, in, func(in []byte) { ch.s = seed.NewSeed(in, dst) })
		return ch
	case 1:
		k := Expand(U64(c, "rngkey"), 32)
		off := Int(c, 0, 200, "off")
		var r rand.Rand
		lent(c, k, func(k []byte) { r = rand.NewChaCha20(k) })
		if off > 0 {
			r.FillUint8(make([]byte, off))
		}
		st := ref.Stream{Key: k, Off: off}
		if Bool(c, "randomness") {
			ch := chain{seed.FromRandomness(r), nil, "FromRandomness"}
			ch.v = ref.Seed(st.Next(32), "ic-crypto-seed-from-randomness")
			return ch
		}
		ch := chain{seed.FromRng(r), nil, fmt.Sprintf("FromRng after %d bytes", off)}
		ch.v = ref.Seed(st.Next(32), "ic-crypto-seed-from-rng")
		next := make([]byte, 8)
		r.FillUint8(next)
		if !bytes.Equal(next, st.Next(8)) {
			c.Fatalf("making a seed consumed other than 32 bytes of the generator")
		}
		return ch
	}
	ch := chain{nil, ref.Seed(in, "ic-crypto-seed-from-bytes"), fmt.Sprintf("FromBytes(%s)", ref.Hex(in))}
	lent(c, in, func(in []byte) { ch.s = seed.FromBytes(in) })
	return ch
}
func (ch chain) derive(dst string) chain {
	return chain{ch.s.Derive(dst), ref.Seed(ch.v, dst), ch.how + fmt.Sprintf(".Derive(%q)", dst)}
}
func (ch chain) check(c *C) {
	got := make([]byte, 40)
	ch.s.Rng().FillUint8(got)
	if want := ref.ChaCha(ch.v, 40); !bytes.Equal(got, want) {
		c.Fatalf("%s generates %x, want %x", ch.how, got, want)
	}
}

func seedChains(c *C) {
	ch := startSeed(c)
	n := Int(c, 0, 5, "depth")
	all := []chain{ch}
	var labels []string
	for i := 0; i < n; i++ {
		l := drawOracleDST(c)
		if len(labels) > 0 && Bool(c, "same label") {
			l = Pick(c, labels, "label")
		}
		labels = append(labels, l)
		all = append(all, Pick(c, all, "from").derive(l))
	}
	c.Key(ch.v, n, all[len(all)-1].how)
	c.Label("depth=%d", n)
	c.Note("%s", all[len(all)-1].how)
	for _, x := range Shuffle(c, all, "order") { // a seed is not used up
		x.check(c)
	}
	for _, x := range all {
		x.check(c)
	}
}

func streamReads(c *C) {
	ch := startSeed(c)
	r := ch.s.Rng()
	twin := ch.s.Rng() // another generator of the same seed, read differently
	st := &ref.Stream{Key: ch.v}
	n := Int(c, 0, 9, "reads")
	if n == 0 {
		c.Trivial()
	}
	var prog []string
	var all []byte
	for i := 0; i < n; i++ {
		op := Pick(c, []string{"u32", "u64", "fill", "xor", "scalar"}, "op")
		size := Pick(c, []int{0, 1, 3, 4, 8, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}, "size")
		if Bool(c, "anysize") {
			size = Int(c, 0, 200, "size")
			if OneIn(c, 6, "large") {
				size = 200 + int(U64(c, "large")%5000)
			}
		}
		off := st.Off
		switch op {
		case "u32":
			if got, want := r.Uint32(), binary.BigEndian.Uint32(st.Next(4)); got != want {
				c.Fatalf("after %v at byte %d: Uint32 %08x, want %08x", prog, off, got, want)
			}
		case "u64":
			if got, want := r.Uint64(), binary.BigEndian.Uint64(st.Next(8)); got != want {
				c.Fatalf("after %v at byte %d: Uint64 %016x, want %016x", prog, off, got, want)
			}
		case "fill":
			big := Content(c, size+16, "dirt") // fill a part of a larger dirty buffer
			keep := append([]byte{}, big...)
			r.FillUint8(big[8 : 8+size])
			want := st.Next(size)
			if !bytes.Equal(big[8:8+size], want) {
				c.Fatalf("after %v at byte %d: %d bytes filled with %s, want %s", prog, off, size, ref.Hex(big[8:8+size]), ref.Hex(want))
			}
			if !bytes.Equal(big[:8], keep[:8]) || !bytes.Equal(big[8+size:], keep[8+size:]) {
				c.Fatalf("filling %d bytes wrote outside the buffer", size)
			}
		case "xor":
			src := Content(c, size, "src")
			dst := src
			if Bool(c, "separate") {
				dst = make([]byte, size)
			}
			want := st.Next(size)
			for i := range want {
				want[i] ^= src[i]
			}
			r.XORKeyStream(dst, src)
			if !bytes.Equal(dst, want) {
				c.Fatalf("after %v at byte %d: %d bytes XORed to %s, want %s", prog, off, size, ref.Hex(dst), ref.Hex(want))
			}
		case "scalar":
			if got, want := V(curve.Scalar.Random(K, r)), st.Scalar(); got.Cmp(want) != 0 {
				c.Fatalf("after %v at byte %d: scalar %x, want %x", prog, off, got, want)
			}
		}
		prog = append(prog, fmt.Sprintf("%s:%d", op, st.Off-off))
	}
	if st.Off > 0 {
		all = make([]byte, st.Off)
		twin.FillUint8(all)
		if want := ref.ChaCha(ch.v, st.Off); !bytes.Equal(all, want) {
			c.Fatalf("%d bytes read at once differ from the key stream", st.Off)
		}
	}
	c.Key(ch.v, prog)
	c.Label("bytes %s", bucket(st.Off, 0, 1, 64, 256, 1024))
	c.Note("%s read as %v", ch.how, prog)
}

func seedsDiffer(c *C) {
	in := Data(c, "in")
	dst := drawOracleDST(c)
	var path []string
	for i := Int(c, 0, 4, "depth"); i > 0; i-- {
		path = append(path, Pick(c, []string{"a", "b", "ab", "label1", "label2", ""}, "label"))
	}
	in2, dst2, path2 := in, dst, append([]string{}, path...)
	what := ""
	switch Int(c, 0, 4, "what") {
	case 0:
		what, in2 = "input", AlterBytes(c, in, "in'")
	case 1:
		what, dst2 = "domain separator", string(AlterBytes(c, []byte(dst), "dst'"))
	case 2:
		what, path2 = "one more derivation", append(path2, Pick(c, []string{"a", "b", "", dst}, "label"))
	case 3:
		what = "a label"
		if len(path2) == 0 {
			path2 = []string{"x"}
		} else {
			i := Int(c, 0, len(path2)-1, "i")
			path2[i] = string(AlterBytes(c, []byte(path2[i]), "label'"))
		}
	case 4:
		what = "order of labels"
		path2 = Shuffle(c, path2, "order")
	}
	same := what == "order of labels"
	if same {
		for i := range path {
			same = same && path[i] == path2[i]
		}
	}
	c.Key(what, in, dst, path, in2, dst2, path2)
	c.Label("%s same=%v", what, same)
	c.Note("%s %q %q against %s %q %q", ref.Hex(in), dst, path, ref.Hex(in2), dst2, path2)
	get := func(in []byte, dst string, path []string) (string, *big.Int) {
		s := seed.NewSeed(in, dst)
		for _, l := range path {
			s = s.Derive(l)
		}
		b := make([]byte, 32)
		s.Rng().FillUint8(b)
		return string(b), V(curve.Scalar.FromSeed(K, s))
	}
	a, sa := get(in, dst, path)
	b, sb := get(in2, dst2, path2)
	if (a == b) != same || (sa.Cmp(sb) == 0) != same {
		c.Fatalf("%s: %s %q %q and %s %q %q: streams equal %v, scalars equal %v", what, ref.Hex(in), dst, path, ref.Hex(in2), dst2, path2, a == b, sa.Cmp(sb) == 0)
	}
}

// scripted is a generator whose 32 byte blocks are given
type scripted struct {
	rand.Rand
	data []byte
	off  int
}

func (s *scripted) FillUint8(b []uint8) { s.off += copy(b, s.data[s.off:]) }
func (s *scripted) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ s.data[s.off]
		s.off++
	}
}

func scalarDraws(c *C) {
	var data []byte
	var want []*big.Int
	bad := Int(c, 0, 4, "bad")
	for i := 0; i < bad; i++ { // refused blocks
		v := new(big.Int).Add(ref.Q, big.NewInt(int64(Int(c, 0, 3, "over"))))
		if Bool(c, "all ones") {
			v.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(Int(c, 1, 3, "top"))))
		}
		data = append(data, v.FillBytes(make([]byte, 32))...)
	}
	v := Scalar(c, "v")
	data = append(data, ref.B32(v)...)
	want = append(want, v)
	if Bool(c, "between") {
		data = append(data, ref.B32(ref.Q)...)
	}
	w := Scalar(c, "w")
	data = append(data, ref.B32(w)...)
	want = append(want, w)
	data = append(data, Expand(7, 256)...)
	c.Key(data[:len(data)-256])
	c.Label("refused=%d", bad)
	c.Note("blocks %s", ref.Hex(data[:len(data)-256]))
	r := &scripted{data: data}
	for i := range want {
		if got := V(curve.Scalar.Random(K, r)); got.Cmp(want[i]) != 0 {
			c.Fatalf("scalar %d from blocks %x is %x, want %x", i, data[:len(data)-256], got, want[i])
		}
	}
	if r.off != len(data)-256 {
		c.Fatalf("%d bytes read, want %d", r.off, len(data)-256)
	}
	r = &scripted{data: data}
	p := poly.Poly.Random(K, 2, r)
	if !samePoly(p, ref.Poly(want), 0) {
		c.Fatalf("polynomial from blocks %x has other coefficients", data[:len(data)-256])
	}
	r = &scripted{data: data}
	if got := V(mega.PrivateKey.GeneratePrivateKey(K, r).SecretScalar()); got.Cmp(want[0]) != 0 {
		c.Fatalf("private key from blocks %x is %x", data[:len(data)-256], got)
	}
}

func seedKeys(c *C) {
	ch := startSeed(c)
	c.Key(ch.v)
	c.Note("%s", ch.how)
	sk := (&ref.Stream{Key: ch.v}).Scalar()
	for i := 0; i < 2; i++ {
		pub, priv, err := mega.GenKeypair(K, ch.s)
		Must(c, err, "GenKeypair")
		c.Owned(pub, priv)
		if V(priv.SecretScalar()).Cmp(sk) != 0 || !PV(pub.PublicPoint()).Eq(ref.MulG(sk)) {
			c.Fatalf("%s: key pair (%x, %s), want (%x, %s)", ch.how, V(priv.SecretScalar()), PV(pub.PublicPoint()), sk, ref.MulG(sk))
		}
		if !PV(priv.PublicKey().PublicPoint()).Eq(ref.MulG(sk)) || pub.CurveType() != K || priv.CurveType() != K {
			c.Fatalf("%s: the private key's public key differs", ch.how)
		}
		if got := V(curve.Scalar.FromSeed(K, ch.s)); got.Cmp(sk) != 0 {
			c.Fatalf("%s: scalar %x, want %x", ch.how, got, sk)
		}
	}
	n := Int(c, 0, 6, "n")
	st := &ref.Stream{Key: ch.v}
	want := make(ref.Poly, n)
	for i := range want {
		want[i] = st.Scalar()
	}
	if p := poly.Poly.Random(K, n, ch.s.Rng()); !samePoly(p, want, 0) {
		c.Fatalf("%s: random polynomial of %d coefficients differs from the stream", ch.how, n)
	}
	k := Scalar(c, "constant")
	st = &ref.Stream{Key: ch.v}
	w2 := ref.Poly{k}
	for i := 1; i <= n; i++ {
		w2 = append(w2, st.Scalar())
	}
	p, err := poly.Poly.RandomWithConstant(S(k), n+1, ch.s.Rng())
	Must(c, err, "RandomWithConstant")
	if !samePoly(p, w2, 0) {
		c.Fatalf("%s: random polynomial of %d coefficients with a given constant differs from the stream", ch.how, n+1)
	}
}
