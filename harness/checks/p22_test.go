package checks

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/sign"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP22(t *testing.T) {
	Run(t, "P22", []Sub{
		{"derive", "a master key and a path of 0 to 12 indices of 0 to 600 bytes; all count", 3500, deriveKeys},
		{"bip32", "a path of 32-bit integers, given as integers and as bytes; all count", 3000, deriveBip32},
		{"invalid", "bytes that encode no point, as a master key; all count", 3000, deriveInvalid},
		{"successor", "an index of 0 to 40 bytes, with trailing 255s favoured; all count", 10000, indexNext},
		{"reuse", "a few path objects used in turn with a few keys (opposite ones, multiples, a point changed in place), results altered by the caller in between; all count", 1000, deriveReuse},
		{"sensitive", "two paths or keys that differ in one place; all count", 1200, deriveDiffers},
	})
}

func libPath(p [][]byte) *key.DerivationPath {
	r := make([]key.DerivationIndex, len(p))
	for i := range p {
		r[i] = key.DerivationIndex(p[i])
	}
	return key.New(r)
}

func pathString(p [][]byte) string {
	s := "m"
	for _, x := range p {
		s += "/" + ref.Hex(x)
	}
	return s
}

// checkDerive compares both interfaces with the reference
func checkDerive(c *C, pk ref.Pt, path [][]byte, lp *key.DerivationPath) {
	child, tweak, chainKey, ok := ref.Derive(pk, path)
	if !ok { // happens with probability 2^-127
		return
	}
	lpk := Pt(pk)
	keep := Bool(c, "results kept")
	for round := 0; round < 2; round++ {
		t, ck, err := lp.DeriveTweak(lpk)
		Must(c, err, "DeriveTweak(%s)", pathString(path))
		if V(t).Cmp(tweak) != 0 || !bytes.Equal(ck, chainKey) {
			c.Fatalf("key %s path %s: tweak %x chain %x, want %x %x (round %d)", pk, pathString(path), V(t), ck, tweak, chainKey, round)
		}
		if keep {
			c.Owned(t, ck)
		} else {
			Spoil(t)
			Spoil(ck)
		}
		if !PV(lpk).Eq(pk) {
			c.Fatalf("the master key changed")
		}
		enc := pk.Bytes()
		if round == 1 {
			enc = pk.Uncompressed()
		}
		m := &key.MasterEcdsaPublicKey{PublicKey: enc}
		if round == 1 {
			if _, err := curve.Point.Deserialize(K, enc); err != nil {
				m.PublicKey = pk.Bytes() // only compressed keys are read
			}
		}
		r, err := sign.DerivePublicKey(m, lp)
		Must(c, err, "DerivePublicKey(%s)", pathString(path))
		if !bytes.Equal(r.PublicKey, child.Bytes()) || !bytes.Equal(r.ChainKey, chainKey) {
			c.Fatalf("key %s path %s derives %x chain %x, want %s %x", pk, pathString(path), r.PublicKey, r.ChainKey, child, chainKey)
		}
		got, _ := ref.Decode(r.PublicKey)
		if !got.Sub(pk).Eq(ref.MulG(tweak)) {
			c.Fatalf("the tweak times the generator is not the difference of the keys")
		}
		if keep {
			c.Owned(r.PublicKey, r.ChainKey)
		} else {
			Spoil(r.PublicKey)
			Spoil(r.ChainKey)
		}
	}
	if keep { // other derivations between
		other := append(append([][]byte{}, path...), []byte{1})
		for k := Int(c, 1, 3, "others"); k > 0; k-- {
			t, ck, err := libPath(other).DeriveTweak(lpk)
			Must(c, err, "DeriveTweak(%s)", pathString(other))
			if _, tweak, chainKey, ok := ref.Derive(pk, other); ok && (V(t).Cmp(tweak) != 0 || !bytes.Equal(ck, chainKey)) {
				c.Fatalf("key %s path %s: tweak %x chain %x, want %x %x", pk, pathString(other), V(t), ck, tweak, chainKey)
			}
			c.Owned(t, ck)
		}
	}
}

func deriveKeys(c *C) {
	pk := NonIdPoint(c, "pk")
	path := Path(c, 6, "path")
	if OneIn(c, 15, "deep") {
		path = Path(c, 12, "path")
	}
	c.Key(pk, path)
	c.Label("indices=%d", len(path))
	for _, x := range path {
		c.Label("index %s", bucket(len(x), 0, 1, 4, 5, 33, 256))
	}
	c.Note("key %s path %s", pk, pathString(path))
	keep := pathString(path)
	checkDerive(c, pk, path, libPath(path))
	if pathString(path) != keep {
		c.Fatalf("the path changed")
	}
}

func deriveBip32(c *C) {
	pk := NonIdPoint(c, "pk")
	n := Int(c, 0, 6, "n")
	ints := make([]uint32, n)
	path := make([][]byte, n)
	for i := range ints {
		ints[i] = uint32(Node(c, "index"))
		path[i] = binary.BigEndian.AppendUint32(nil, ints[i])
	}
	c.Key(pk, ints)
	c.Label("n=%d", n)
	c.Note("key %s path %v", pk, ints)
	given := append([]uint32{}, ints...)
	lp := key.NewBip32(given)
	for i := range given {
		given[i] ^= 0x5a5a
	}
	checkDerive(c, pk, path, lp)
	a, _, err := key.NewBip32(ints).DeriveTweak(Pt(pk))
	Must(c, err, "DeriveTweak")
	b, _, err := libPath(path).DeriveTweak(Pt(pk))
	Must(c, err, "DeriveTweak")
	if V(a).Cmp(V(b)) != 0 {
		c.Fatalf("path %v as integers and as bytes differ", ints)
	}
}

func deriveInvalid(c *C) {
	pk := NonIdPoint(c, "pk")
	enc := pk.Bytes()
	what := ""
	switch Int(c, 0, 6, "what") {
	case 0:
		what, enc = "empty", nil
	case 1:
		what, enc = "truncated", enc[:Int(c, 1, 32, "n")]
	case 2:
		what, enc = "extended", append(enc, Bytes(c, 40, "more")...)
		if len(enc) == 33 {
			enc = append(enc, 0)
		}
	case 3:
		what = "tag"
		enc[0] = byte(Int(c, 5, 255, "tag"))
	case 4:
		what = "x above the prime"
		x := new(big.Int).Add(ref.P, big.NewInt(int64(Int(c, 0, 976, "x"))))
		enc = append([]byte{enc[0]}, x.FillBytes(make([]byte, 32))...)
	case 5:
		what = "x off the curve"
		x := FieldEl(c, "x")
		for {
			if _, ok := ref.LiftX(x, false); !ok {
				break
			}
			x = ref.AddM(x, big.NewInt(1), ref.P)
		}
		enc = append([]byte{enc[0]}, ref.B32(x)...)
	case 6:
		what, enc = "random", Bytes(c, 80, "enc")
	}
	if len(enc) == 65 || bytes.Equal(enc, make([]byte, 33)) {
		c.Trivial()
		return
	}
	if _, ok := ref.Decode(enc); ok {
		c.Trivial()
		return
	}
	path := Path(c, 3, "path")
	c.Key(enc, path)
	c.Label("%s", what)
	c.Note("%s: %s", what, ref.Hex(enc))
	if r, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: enc}, libPath(path)); err == nil {
		c.Fatalf("master key %x (%s) accepted, derives %x", enc, what, r.PublicKey)
	}
}

func indexNext(c *C) {
	n := Pick(c, []int{0, 1, 2, 4, 8, 32, 33, 40}, "n")
	if Bool(c, "any") {
		n = Int(c, 0, 40, "n")
	}
	idx := Content(c, n, "idx")
	for i, k := n-1, Int(c, 0, n, "ff"); k > 0; i, k = i-1, k-1 {
		idx[i] = 0xff
	}
	keep := string(idx)
	v := new(big.Int).SetBytes(idx)
	v.Add(v, big.NewInt(1))
	size := n
	if v.BitLen() > 8*n {
		size = n + 1
	}
	want := v.FillBytes(make([]byte, size))
	c.Key(idx)
	c.Label("overflow=%v", size != n)
	c.Note("%x", idx)
	if got := key.DerivationIndex(idx).Next(); !bytes.Equal(got, want) {
		c.Fatalf("successor of %x is %x, want %x", idx, []byte(got), want)
	}
	if string(idx) != keep {
		c.Fatalf("the index changed")
	}
}

func deriveDiffers(c *C) {
	pk := NonIdPoint(c, "pk")
	path := Path(c, 4, "path")
	pk2, path2 := pk, append([][]byte{}, path...)
	what := ""
	switch Int(c, 0, 4, "what") {
	case 0:
		what, pk2 = "key", OtherPoint(c, pk, "pk'")
		if pk2.Inf() {
			pk2 = pk.Add(pk).Add(pk)
		}
		if len(path) == 0 {
			path = [][]byte{{1}}
			path2 = path
		}
	case 1:
		what = "index"
		if len(path2) == 0 {
			path2 = [][]byte{{}}
		} else {
			i := Int(c, 0, len(path2)-1, "i")
			path2[i] = AlterBytes(c, path2[i], "index'")
		}
	case 2:
		what, path2 = "longer", append(path2, Pick(c, [][]byte{{}, {0}, {0, 0, 0, 0}, {1}}, "more"))
	case 3: // two indices joined, or one split
		what = "joined"
		if len(path2) < 2 {
			path, path2 = [][]byte{{1, 2}, {3, 4}}, [][]byte{{1, 2, 3, 4}}
		} else {
			j := append(append([]byte{}, path2[0]...), path2[1]...)
			path2 = append([][]byte{j}, path2[2:]...)
		}
	case 4:
		what = "order"
		path2 = Shuffle(c, path2, "order")
	}
	same := what == "order" && pathString(path) == pathString(path2)
	if what == "order" && !same { // contents may agree beyond what is printed
		same = true
		for i := range path {
			same = same && bytes.Equal(path[i], path2[i])
		}
	}
	c.Key(pk, pk2, path, path2)
	c.Label("%s same=%v", what, same)
	c.Note("%s: %s %s against %s %s", what, pk, pathString(path), pk2, pathString(path2))
	a, _, err := libPath(path).DeriveTweak(Pt(pk))
	Must(c, err, "DeriveTweak")
	b, _, err := libPath(path2).DeriveTweak(Pt(pk2))
	Must(c, err, "DeriveTweak")
	if (V(a).Cmp(V(b)) == 0) != same {
		c.Fatalf("%s: key %s path %s and key %s path %s: tweaks %x and %x", what, pk, pathString(path), pk2, pathString(path2), V(a), V(b))
	}
}

// deriveReuse uses the same path and point objects again and again
func deriveReuse(c *C) {
	pk := NonIdPoint(c, "pk")
	keys := []ref.Pt{pk, pk.Neg(), pk, NonIdPoint(c, "pk'")}
	if q := pk.Add(pk); !q.Inf() {
		keys = append(keys, q)
	}
	path := Path(c, 3, "path")
	paths := [][][]byte{path, append(append([][]byte{}, path...), Path(c, 1, "more")...), Path(c, 3, "path'")}
	if len(path) > 0 {
		p := append([][]byte{}, path...)
		p[len(p)-1] = AlterBytes(c, p[len(p)-1], "index'")
		paths = append(paths, p, path[:len(path)-1])
	}
	var libs []*key.DerivationPath
	for _, p := range paths {
		libs = append(libs, libPath(p))
	}
	obj := Pt(pk) // changed in place from key to key
	n := Int(c, 3, 7, "uses")
	c.Key(pk, path, n)
	c.Note("key %s, path %s and relatives, %d uses", pk, pathString(path), n)
	at := Int(c, 0, len(paths)-1, "first path")
	for k := 0; k < n; k++ {
		if Bool(c, "other path") {
			at = Int(c, 0, len(paths)-1, "path")
		}
		q := Pick(c, keys, "key")
		c.Key(at, q)
		child, tweak, chainKey, ok := ref.Derive(q, paths[at])
		if !ok {
			continue
		}
		in := Pt(q)
		if Bool(c, "in place") {
			in = obj.Assign(in)
		}
		t, ck, err := libs[at].DeriveTweak(in)
		Must(c, err, "DeriveTweak(%s)", pathString(paths[at]))
		if V(t).Cmp(tweak) != 0 || !bytes.Equal(ck, chainKey) {
			c.Fatalf("use %d: key %s path %s: tweak %x chain %x, want %x %x", k, q, pathString(paths[at]), V(t), ck, tweak, chainKey)
		}
		if !PV(in).Eq(q) {
			c.Fatalf("use %d: the key changed", k)
		}
		if Bool(c, "kept") {
			c.Owned(t, ck)
		} else {
			t.Add(t, curve.Scalar.One(K))
			for i := range ck {
				ck[i] ^= 0x5a
			}
		}
		if Bool(c, "public") {
			m := &key.MasterEcdsaPublicKey{PublicKey: q.Bytes()}
			r, err := sign.DerivePublicKey(m, libs[at])
			Must(c, err, "DerivePublicKey")
			if !bytes.Equal(r.PublicKey, child.Bytes()) || !bytes.Equal(r.ChainKey, chainKey) {
				c.Fatalf("use %d: key %s path %s derives %x chain %x, want %s %x", k, q, pathString(paths[at]), r.PublicKey, r.ChainKey, child, chainKey)
			}
			for i := range r.ChainKey {
				r.ChainKey[i] ^= 0x5a
			}
			r.PublicKey[Int(c, 0, 32, "byte")] ^= 1
		}
	}
}
