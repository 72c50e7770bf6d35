package checks

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP10(t *testing.T) {
	Run(t, "P10", []Sub{
		{"roundtrip", "a ciphertext to 1-7 recipients, some sharing a key, decrypted by every recipient and by the reference; all count", 500, megaRoundTrip},
		{"many", "a ciphertext to 256-300 recipients, some sharing a key, decrypted at boundary indices by library and reference; all count", 24, megaMany},
		{"bound", "decryption with one wrong key, index or context, or of exchanged ciphertexts; all count", 900, megaBound},
		{"refused", "decryption and validity check under one wrong context or an altered possession proof; all count", 900, megaRefused},
		{"inputs", "encryption of mismatched or empty inputs; all count", 200, megaInputs},
		{"check", "decryption against a commitment, right or wrong; all count", 400, megaCheck},
		{"stream", "two encryptions that differ in one input never use the same key stream; all count", 300, megaStream},
	})
}

// sealed is a ciphertext with what it was made from
type sealed struct {
	pair bool
	ct   mega.MEGaCiphertext
	pt   [][]*big.Int
	ps   []party
	d    int
	ad   []byte
}

func megaDST(pair bool, use string) string {
	if pair {
		return "ic-crypto-tecdsa-mega-encryption-pair-" + use
	}
	return "ic-crypto-tecdsa-mega-encryption-single-" + use
}

func encrypt(pair bool, sd *seed.Seed, pt [][]*big.Int, ps []party, d int, ad []byte) (mega.MEGaCiphertext, error) {
	if pair {
		v := make([][2]scalarT, len(pt))
		for i := range pt {
			v[i] = [2]scalarT{S(pt[i][0]), S(pt[i][1])}
		}
		ct, err := mega.EncryptCiphertextPair(sd, v, pks(ps), NI(d), ad)
		if err != nil {
			return nil, err
		}
		return ct, nil
	}
	v := make([]scalarT, len(pt))
	for i := range pt {
		v[i] = S(pt[i][0])
	}
	ct, err := mega.EncryptCiphertextSingle(sd, v, pks(ps), NI(d), ad)
	if err != nil {
		return nil, err
	}
	return ct, nil
}

func decrypt(ct mega.MEGaCiphertext, ad []byte, d, i int, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey) ([]*big.Int, error) {
	switch x := ct.(type) {
	case *mega.MEGaCiphertextSingle:
		v, err := x.Decrypt(ad, NI(d), NI(i), sk, pk)
		if err != nil {
			return nil, err
		}
		r := bigs(V(v))
		Spoil(v)
		return r, nil
	case *mega.MEGaCiphertextPair:
		v, err := x.Decrypt(ad, NI(d), NI(i), sk, pk)
		if err != nil {
			return nil, err
		}
		r := bigs(V(v[0]), V(v[1]))
		Spoil(v)
		return r, nil
	}
	panic(fmt.Sprintf("%T", ct))
}
func decryptShared(ct mega.MEGaCiphertext, ad []byte, d, i int, pk *mega.MEGaPublicKey, ss pointT) ([]*big.Int, error) {
	switch x := ct.(type) {
	case *mega.MEGaCiphertextSingle:
		v, err := x.DecryptFromSharedSecret(ad, NI(d), NI(i), pk, ss)
		if err != nil {
			return nil, err
		}
		r := bigs(V(v))
		Spoil(v)
		return r, nil
	case *mega.MEGaCiphertextPair:
		v, err := x.DecryptFromSharedSecret(ad, NI(d), NI(i), pk, ss)
		if err != nil {
			return nil, err
		}
		r := bigs(V(v[0]), V(v[1]))
		Spoil(v)
		return r, nil
	}
	panic(fmt.Sprintf("%T", ct))
}

// ctexts are the encrypted scalars of recipient i
func ctexts(ct mega.MEGaCiphertext, i int) []*big.Int {
	switch x := ct.(type) {
	case *mega.MEGaCiphertextSingle:
		return bigs(V(x.CTexts[i]))
	case *mega.MEGaCiphertextPair:
		return bigs(V(x.CTexts[i][0]), V(x.CTexts[i][1]))
	}
	panic(fmt.Sprintf("%T", ct))
}

// refKeyStream is what the scheme adds to the plaintexts
func refKeyStream(pair bool, d, i int, ad []byte, pk, eph, shared ref.Pt) []*big.Int {
	n := 1
	if pair {
		n = 2
	}
	return ref.NewRO(megaDST(pair, "encrypt")).Int("dealer_index", uint64(uint32(d))).Int("recipient_index", uint64(uint32(i))).
		Bytes("associated_data", ad).Point("public_key", pk).Point("ephemeral_key", eph).Point("shared_secret", shared).OutScalars(n)
}
func subAll(a, b []*big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i := range a {
		r[i] = ref.Sub(a[i], b[i])
	}
	return r
}

// anyShared tells whether any component is the same
func anyShared(a, b []*big.Int) bool {
	for i := range a {
		if a[i].Cmp(b[i]) == 0 {
			return true
		}
	}
	return false
}

func seal(c *C, n int) *sealed {
	s := &sealed{pair: Bool(c, "pair"), d: Node(c, "dealer"), ad: Data(c, "ad")}
	s.ps = parties(c, n, "keys")
	for i := range s.ps {
		switch {
		case i > 0 && OneIn(c, 5, "shared key"):
			s.ps[i] = s.ps[Int(c, 0, i-1, "with")]
		case OneIn(c, 8, "edge key"):
			s.ps[i] = newParty(Scalar(c, "sk"))
		}
	}
	w := 1
	if s.pair {
		w = 2
	}
	for i := 0; i < n; i++ {
		var v []*big.Int
		for j := 0; j < w; j++ {
			v = append(v, Scalar(c, "plaintext"))
		}
		if i > 0 && OneIn(c, 6, "same plaintext") {
			v = s.pt[i-1]
		}
		s.pt = append(s.pt, v)
	}
	c.Key(s.pair, n, s.d, s.ad, s.pt[0], s.ps[0].sk)
	before := Dump(pks(s.ps))
	ad := append([]byte{}, s.ad...)
	var err error
	s.ct, err = encrypt(s.pair, Seed(c, "seed"), s.pt, s.ps, s.d, ad)
	Must(c, err, "encryption to %d", n)
	c.Owned(s.ct)
	if Dump(pks(s.ps)) != before || string(ad) != string(s.ad) {
		c.Fatalf("encryption changed its inputs")
	}
	return s
}
func (s *sealed) kind() string {
	if s.pair {
		return "pair"
	}
	return "single"
}

// each checks one recipient
func (s *sealed) each(c *C, i int) {
	got, err := decrypt(s.ct, s.ad, s.d, i, s.ps[i].SK, s.ps[i].PK)
	if err != nil || !SameVals(got, s.pt[i]) {
		c.Fatalf("%s ciphertext of dealer %d to %d: recipient %d decrypts %x, %v; plaintext %x", s.kind(), s.d, len(s.ps), i, got, err, s.pt[i])
	}
	shared := PV(s.ct.Ephemeral()).Mul(s.ps[i].sk)
	got, err = decryptShared(s.ct, s.ad, s.d, i, s.ps[i].PK, Pt(shared))
	if err != nil || !SameVals(got, s.pt[i]) {
		c.Fatalf("%s ciphertext: recipient %d decrypts %x, %v from the shared secret; plaintext %x", s.kind(), i, got, err, s.pt[i])
	}
	mine := subAll(ctexts(s.ct, i), refKeyStream(s.pair, s.d, i, s.ad, s.ps[i].pk(), PV(s.ct.Ephemeral()), shared))
	if !SameVals(mine, s.pt[i]) {
		c.Fatalf("%s ciphertext of dealer %d to %d: the reference decrypts %x for %d; plaintext %x", s.kind(), s.d, len(s.ps), mine, i, s.pt[i])
	}
}

// valid checks the parts that do not depend on a recipient
func (s *sealed) valid(c *C) {
	n := len(s.ps)
	if s.ct.Recipients() != n {
		c.Fatalf("%d recipients, want %d", s.ct.Recipients(), n)
	}
	Must(c, s.ct.CheckValidity(n, s.ad, NI(s.d)), "CheckValidity of a %s ciphertext of dealer %d", s.kind(), s.d)
	ty := mega.MEGaCiphertextType(mega.CiphertextSingle)
	if s.pair {
		ty = mega.CiphertextPairs
	}
	if s.ct.CType() != ty {
		c.Fatalf("type %v", s.ct.CType())
	}
	Must(c, s.ct.VerifyIs(ty, K), "VerifyIs")
	MustErr(c, s.ct.VerifyIs(mega.CiphertextPairs-ty, K), "VerifyIs of the other type")
	// the possession proof by the book
	eph, pop := PV(s.ct.Ephemeral()), PV(s.ct.PopPublic())
	b := ref.NewRO(megaDST(s.pair, "pop-base")).Bytes("associated_data", s.ad).Int("dealer_index", uint64(uint32(s.d))).Point("ephemeral_key", eph).OutPoint()
	if perm, _ := zkRefVerify(zDlog, leafVals(s.ct.Proof()), []ref.Pt{ref.G(), b, eph, pop}, s.ad, zkDST[zDlog]); perm == nil {
		c.Fatalf("%s ciphertext of dealer %d: the reference refuses the possession proof", s.kind(), s.d)
	}
	if eph.Inf() {
		c.Fatalf("ephemeral key is the identity")
	}
}

func megaRoundTrip(c *C) {
	s := seal(c, Int(c, 1, 7, "n"))
	c.Label("%s n=%d", s.kind(), len(s.ps))
	c.Note("%s ciphertext of dealer %d to %d, %d bytes of data", s.kind(), s.d, len(s.ps), len(s.ad))
	before := Dump(s.ct)
	s.valid(c)
	for i := range s.ps {
		s.each(c, i)
	}
	if Dump(s.ct) != before {
		c.Fatalf("decryption changed the ciphertext")
	}
	for _, i := range []int{len(s.ps), len(s.ps) + 1, 255, 256, 65536, 1 << 31, 1<<32 - 1} {
		if _, err := decrypt(s.ct, s.ad, s.d, i, s.ps[0].SK, s.ps[0].PK); err == nil {
			c.Fatalf("recipient %d of %d decrypts", i, len(s.ps))
		}
		if _, err := decryptShared(s.ct, s.ad, s.d, i, s.ps[0].PK, s.ct.Ephemeral()); err == nil {
			c.Fatalf("recipient %d of %d decrypts", i, len(s.ps))
		}
	}
}

func megaMany(c *C) {
	n := Int(c, 256, 300, "n")
	s := &sealed{pair: Bool(c, "pair"), d: Node(c, "dealer"), ad: Data(c, "ad")}
	few := parties(c, 3, "keys")
	w := 1
	if s.pair {
		w = 2
	}
	vals := bulk(c, n*w, "plaintexts")
	for i := 0; i < n; i++ {
		s.ps = append(s.ps, few[i%3])
		if i%3 == 0 && i > 200 {
			s.ps[i] = few[(i/3)%3]
		}
		s.pt = append(s.pt, vals[i*w:i*w+w])
	}
	c.Key(s.pair, n, s.d, s.ad, few[0].sk)
	c.Label("%s", s.kind())
	c.Note("%s ciphertext of dealer %d to %d recipients", s.kind(), s.d, n)
	var err error
	s.ct, err = encrypt(s.pair, Seed(c, "seed"), s.pt, s.ps, s.d, s.ad)
	Must(c, err, "encryption to %d", n)
	c.Owned(s.ct)
	s.valid(c)
	for _, i := range []int{0, 127, 128, 255, 256, n - 1, Int(c, 0, n-1, "i"), Int(c, 0, n-1, "j")} {
		if i < n {
			s.each(c, i)
		}
	}
	MustErr(c, s.ct.CheckValidity(n-256, s.ad, NI(s.d)), "CheckValidity for %d of %d", n-256, n)
	MustErr(c, s.ct.CheckValidity(n+256, s.ad, NI(s.d)), "CheckValidity for %d of %d", n+256, n)
}

func megaBound(c *C) {
	s := seal(c, Int(c, 1, 5, "n"))
	n := len(s.ps)
	i := Int(c, 0, n-1, "recipient")
	s.each(c, i)
	stranger := newParty(RandScalar(c, "stranger"))
	if n > 1 && Bool(c, "colleague") {
		stranger = s.ps[(i+1)%n]
	}
	what := ""
	var got []*big.Int
	var err error
	p := s.ps[i]
	shared := Pt(PV(s.ct.Ephemeral()).Mul(p.sk))
	same := stranger.sk.Cmp(p.sk) == 0
	try := func(w string, g []*big.Int, e error) { what, got, err = w, g, e }
	k := Int(c, 0, 9, "what")
	switch k {
	case 0:
		g, e := decrypt(s.ct, s.ad, s.d, i, stranger.SK, p.PK)
		try("private key", g, e)
	case 1:
		g, e := decrypt(s.ct, s.ad, s.d, i, p.SK, stranger.PK)
		try("public key", g, e)
	case 2:
		g, e := decrypt(s.ct, s.ad, s.d, i, stranger.SK, stranger.PK)
		try("keys", g, e)
	case 3: // the ciphertext of i handed over as that of j, which may have the same keys
		if n == 1 {
			c.Trivial()
			return
		}
		j := (i + Int(c, 1, n-1, "j")) % n
		ct := Copy(s.ct)
		switch x := ct.(type) {
		case *mega.MEGaCiphertextSingle:
			x.CTexts[i], x.CTexts[j] = x.CTexts[j], x.CTexts[i]
		case *mega.MEGaCiphertextPair:
			x.CTexts[i], x.CTexts[j] = x.CTexts[j], x.CTexts[i]
		}
		g, e := decrypt(ct, s.ad, s.d, j, p.SK, p.PK)
		try("index", g, e)
		same = false
	case 4:
		g, e := decryptShared(s.ct, AlterBytes(c, s.ad, "ad'"), s.d, i, p.PK, shared)
		try("data, from the shared secret", g, e)
		same = false
	case 5:
		g, e := decryptShared(s.ct, s.ad, OtherNode(c, s.d, "d'"), i, p.PK, shared)
		try("dealer, from the shared secret", g, e)
		same = false
	case 6:
		g, e := decryptShared(s.ct, s.ad, s.d, i, stranger.PK, shared)
		try("public key, from the shared secret", g, e)
	case 7:
		g, e := decryptShared(s.ct, s.ad, s.d, i, p.PK, Pt(OtherPoint(c, PV(shared), "ss'")))
		try("shared secret", g, e)
		same = false
	case 8: // another ephemeral key, with the right shared secret
		ct := Copy(s.ct)
		eph := Pt(OtherPoint(c, PV(s.ct.Ephemeral()), "eph'"))
		switch x := ct.(type) {
		case *mega.MEGaCiphertextSingle:
			x.EphemeralKey = eph
		case *mega.MEGaCiphertextPair:
			x.EphemeralKey = eph
		}
		g, e := decryptShared(ct, s.ad, s.d, i, p.PK, shared)
		try("ephemeral key, from the shared secret", g, e)
		same = false
	case 9: // the other half of a pair, or a single ciphertext read as a pair
		ct := Copy(s.ct)
		switch x := ct.(type) {
		case *mega.MEGaCiphertextPair:
			x.CTexts[i][0], x.CTexts[i][1] = x.CTexts[i][1], x.CTexts[i][0]
			g, e := decryptShared(ct, s.ad, s.d, i, p.PK, shared)
			if e == nil { // it must not come out exchanged
				g[0], g[1] = g[1], g[0]
			}
			try("halves", g, e)
		case *mega.MEGaCiphertextSingle:
			o := &mega.MEGaCiphertextPair{EphemeralKey: x.EphemeralKey, PopPublicKey: x.PopPublicKey, PopProof: x.PopProof}
			for _, v := range x.CTexts {
				o.CTexts = append(o.CTexts, [2]scalarT{v, v.Clone()})
			}
			g, e := decryptShared(o, s.ad, s.d, i, p.PK, shared)
			if e == nil {
				if g[1].Cmp(s.pt[i][0]) == 0 {
					c.Fatalf("a single ciphertext read as a pair yields its plaintext")
				}
				g = g[:1]
			}
			try("kind", g, e)
		}
		same = false
	}
	c.Key(k, i)
	c.Label("%s", what)
	c.Note("%s ciphertext to %d, recipient %d, wrong %s", s.kind(), n, i, what)
	if same {
		c.Trivial()
		return
	}
	if err == nil && anyShared(got, s.pt[i]) {
		c.Fatalf("%s ciphertext of dealer %d to %d: recipient %d decrypts its plaintext with wrong %s", s.kind(), s.d, n, i, what)
	}
}

func megaRefused(c *C) {
	s := seal(c, Int(c, 1, 4, "n"))
	n := len(s.ps)
	i := Int(c, 0, n-1, "recipient")
	s.valid(c)
	ct, ad, d, cnt, what := Copy(s.ct), s.ad, s.d, n, ""
	both := true
	switch Int(c, 0, 8, "what") {
	case 0, 1:
		what, ad = "data", AlterBytes(c, s.ad, "ad'")
	case 2, 3:
		what, d = "dealer", OtherNode(c, s.d, "d'")
	case 4:
		what, cnt, both = "recipient count", Pick(c, []int{n + 1, n - 1, 0, n + 256, -n}, "n'"), false
	case 5: // the other kind with the same possession proof
		what = "kind"
		switch x := ct.(type) {
		case *mega.MEGaCiphertextSingle:
			o := &mega.MEGaCiphertextPair{EphemeralKey: x.EphemeralKey, PopPublicKey: x.PopPublicKey, PopProof: x.PopProof}
			for _, v := range x.CTexts {
				o.CTexts = append(o.CTexts, [2]scalarT{v, v.Clone()})
			}
			ct = o
		case *mega.MEGaCiphertextPair:
			o := &mega.MEGaCiphertextSingle{EphemeralKey: x.EphemeralKey, PopPublicKey: x.PopPublicKey, PopProof: x.PopProof}
			for _, v := range x.CTexts {
				o.CTexts = append(o.CTexts, v[0])
			}
			ct = o
		}
	default: // keys and proof
		var ls []Leaf
		for _, l := range Leaves(&ct) {
			if !hasPart(l.Path, ".CTexts") {
				ls = append(ls, l)
			}
		}
		l := Pick(c, ls, "leaf")
		what = "element" + l.Path
		if OneIn(c, 3, "consistent") { // ephemeral key and possession key by the same factor
			what = "both keys"
			f := S(NonZero(c, "f"))
			if V(f).Cmp(big.NewInt(1)) == 0 {
				f = S(big.NewInt(2))
			}
			switch x := ct.(type) {
			case *mega.MEGaCiphertextSingle:
				x.EphemeralKey, x.PopPublicKey = x.EphemeralKey.Clone().ScalarMul(x.EphemeralKey, f), x.PopPublicKey.Clone().ScalarMul(x.PopPublicKey, f)
			case *mega.MEGaCiphertextPair:
				x.EphemeralKey, x.PopPublicKey = x.EphemeralKey.Clone().ScalarMul(x.EphemeralKey, f), x.PopPublicKey.Clone().ScalarMul(x.PopPublicKey, f)
			}
		} else {
			alterLeaf(c, l)
		}
	}
	c.Key(what, i)
	c.Label("%s", what)
	c.Note("%s ciphertext to %d, wrong %s", s.kind(), n, what)
	MustErr(c, ct.CheckValidity(cnt, ad, NI(d)), "validity of a %s ciphertext with wrong %s", s.kind(), what)
	if both {
		if _, err := decrypt(ct, ad, d, i, s.ps[i].SK, s.ps[i].PK); err == nil {
			c.Fatalf("%s ciphertext with wrong %s is decrypted", s.kind(), what)
		}
	}
}

func megaInputs(c *C) {
	pair := Bool(c, "pair")
	n, m := Int(c, 0, 5, "plaintexts"), Int(c, 0, 5, "recipients")
	if OneIn(c, 3, "none") {
		n, m = 0, 0
	}
	w := 1
	if pair {
		w = 2
	}
	var pt [][]*big.Int
	for i := 0; i < n; i++ {
		pt = append(pt, bulk(c, w, "pt"))
	}
	ps := parties(c, m, "keys")
	d, ad := Node(c, "dealer"), Data(c, "ad")
	c.Key(pair, n, m, d, ad)
	c.Label("n=m: %v, none: %v", n == m, n == 0)
	c.Note("pair=%v, %d plaintexts to %d recipients", pair, n, m)
	ct, err := encrypt(pair, Seed(c, "seed"), pt, ps, d, ad)
	if good := n == m && n > 0; good != (err == nil) {
		c.Fatalf("encryption of %d plaintexts to %d recipients: %v", n, m, err)
	}
	if err == nil && ct.Recipients() != n {
		c.Fatalf("%d ciphertexts", ct.Recipients())
	}
}

func megaCheck(c *C) {
	pair := Bool(c, "pair")
	n := Int(c, 1, 4, "n")
	t := Int(c, 1, n, "t")
	v := bulkPoly(c, nil, t, "values")
	var m ref.Poly
	s := &sealed{pair: pair, d: Node(c, "dealer"), ad: Data(c, "ad"), ps: parties(c, n, "keys")}
	if pair {
		m = bulkPoly(c, nil, t, "mask")
	}
	for i := 0; i < n; i++ {
		x := bigs(v.AtNode(i))
		if pair {
			x = append(x, m.AtNode(i))
		}
		s.pt = append(s.pt, x)
	}
	c.Key(pair, n, s.d, s.ad, v)
	var err error
	s.ct, err = encrypt(pair, Seed(c, "seed"), s.pt, s.ps, s.d, s.ad)
	Must(c, err, "encrypt")
	var cm, bad poly.PolynomialCommitment = SimpleCom(v), nil
	pts := SimplePts(v)
	if pair {
		cm, pts = PedersenCom(v, m), PedersenPts(v, m)
	}
	i := Int(c, 0, n-1, "i")
	op, err := s.ct.DecryptAndCheck(wrap(c, cm), s.ad, NI(s.d), NI(i), s.ps[i].SK, s.ps[i].PK)
	if err != nil || !SameVals(OpVals(op), s.pt[i]) {
		c.Fatalf("%s: receiver %d gets %v, %v", s.kind(), i, op, err)
	}
	what := ""
	good := false
	bpts := append([]ref.Pt{}, pts...)
	switch Int(c, 0, 3, "what") {
	case 0, 1:
		k := Int(c, 0, t-1, "k")
		bpts[k] = OtherPoint(c, bpts[k], "pt")
		what = "other coefficient"
	case 2:
		what = "other kind"
	case 3: // same value at this index, different elsewhere
		if t == 1 {
			c.Trivial()
			return
		}
		q := NonIdPoint(c, "q")
		bpts[0], bpts[1] = bpts[0].Sub(q.Mul(ref.NodeX(i))), bpts[1].Add(q)
		what, good = "agrees here", true
	}
	if pair != (what == "other kind") {
		bad = poly.PedersenCM.New(Pts(bpts))
	} else {
		bad = poly.SimpleCM.New(Pts(bpts))
	}
	c.Key(what, i)
	c.Label("%s: %s", s.kind(), what)
	c.Note("%s, n=%d t=%d, receiver %d, commitment: %s", s.kind(), n, t, i, what)
	_, err = s.ct.DecryptAndCheck(bad, s.ad, NI(s.d), NI(i), s.ps[i].SK, s.ps[i].PK)
	if good != (err == nil) {
		c.Fatalf("%s, receiver %d, commitment with %s: %v", s.kind(), i, what, err)
	}
}

func megaStream(c *C) {
	n := Int(c, 1, 3, "n")
	sb := Expand(U64(c, "seed"), 32)
	s := &sealed{pair: Bool(c, "pair"), d: Node(c, "dealer"), ad: Data(c, "ad"), ps: parties(c, n, "keys")}
	w := 1
	if s.pair {
		w = 2
	}
	for i := 0; i < n; i++ {
		s.pt = append(s.pt, bulk(c, w, "pt"))
	}
	if n > 1 && Bool(c, "same key") {
		s.ps[1] = s.ps[0]
	}
	o := *s
	sb2 := sb
	what := ""
	switch Int(c, 0, 4, "what") {
	case 0:
		what, sb2 = "seed", AlterBytes(c, sb, "seed'")
	case 1:
		what, o.d = "dealer", OtherNode(c, s.d, "d'")
	case 2:
		what, o.ad = "data", AlterBytes(c, s.ad, "ad'")
	case 3:
		what, o.ps = "keys", parties(c, n, "keys'")
	case 4:
		what = "nothing"
	}
	c.Key(s.pair, n, s.d, s.ad, s.ps[0].sk, what)
	c.Label("%s", what)
	c.Note("two encryptions that differ in %s", what)
	var err error
	s.ct, err = encrypt(s.pair, seed.FromBytes(sb), s.pt, s.ps, s.d, s.ad)
	Must(c, err, "encrypt")
	o.ct, err = encrypt(o.pair, seed.FromBytes(sb2), o.pt, o.ps, o.d, o.ad)
	Must(c, err, "encrypt")
	if what == "nothing" {
		if Dump(s.ct) != Dump(o.ct) {
			c.Fatalf("encryption of the same from the same seed differs")
		}
	}
	var all []*big.Int
	for i := 0; i < n; i++ {
		all = append(all, subAll(ctexts(s.ct, i), s.pt[i])...)
		if what != "nothing" {
			all = append(all, subAll(ctexts(o.ct, i), o.pt[i])...)
		}
	}
	seen := map[string]bool{}
	for _, v := range all {
		if seen[v.String()] || v.Sign() == 0 {
			c.Fatalf("the key stream repeats between recipients, halves or encryptions that differ in %s", what)
		}
		seen[v.String()] = true
	}
	if what == "seed" && PV(s.ct.Ephemeral()).Eq(PV(o.ct.Ephemeral())) {
		c.Fatalf("different seeds give the same ephemeral key")
	}
}
