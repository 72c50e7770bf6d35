package checks

import (
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP05(t *testing.T) {
	Run(t, "P05", []Sub{
		{"honest", "an honest dealing: kind, base transcripts, receivers, threshold, dealer index, associated data; all count", 700, honestDealing},
		{"large", "an honest dealing to 20 to 300 receivers, most of them more than 256; all count", 16, largeDealing},
		{"refused", "dealing requests with a threshold of 0 or above the receiver count, without receivers or of an unknown kind; all count", 400, refusedDealing},
		{"from", "secret shares made from opening bytes of every combination of kinds; all count", 1000, sharesFrom},
	})
}

func honestDealing(c *C) {
	n := Int(c, 1, 7, "n")
	t := Int(c, 1, n, "t")
	if OneIn(c, 5, "all") {
		t = n
	}
	checkHonest(c, Int(c, 0, 3, "kind"), n, t)
}
func largeDealing(c *C) {
	n := []int{257, 300, 258, 257, 20, 255, 256, 128}[U64(c, "n")%8]
	t := []int{2, 3, 5, 10, 1, 4, 12, n}[U64(c, "t")%8]
	if n > 130 && t > 12 {
		n, t = 130, []int{130, 129, 65}[n%3]
	}
	checkHonest(c, int(U64(c, "kind")%4), n, t)
}

func checkHonest(c *C, kind, n, t int) {
	dealer := Node(c, "dealer")
	ad := Data(c, "ad")
	b := makeBase(c, kind, 4, "base")
	ps := parties(c, n, "keys")
	b.edge(c, dealer)
	c.Key(kind, n, t, dealer, ad, b.f, b.g, ps[0].sk)
	c.Label("%s", kindName[kind])
	c.Note("%s dealing by %d to %d receivers, threshold %d, ad %s", kindName[kind], dealer, n, t, ref.Hex(ad))

	d := dealLib(c, b, t, dealer, ad, ps)
	if err := d.publicly(b.op, t, dealer, n, ad); err != nil {
		c.Fatalf("honest %s dealing (n=%d t=%d dealer=%d) fails public verification: %v", kindName[kind], n, t, dealer, err)
	}
	wantKind, wantCt := poly.Simple, mega.MEGaCiphertextType(mega.CiphertextSingle)
	if isPair(kind) {
		wantKind, wantCt = poly.Pedersen, mega.CiphertextPairs
	}
	if d.d.Commitment.Type() != wantKind || d.d.Ciphertext.CType() != wantCt || d.d.Ciphertext.Recipients() != n {
		c.Fatalf("%s dealing has commitment kind %v, ciphertext kind %v for %d", kindName[kind], d.d.Commitment.Type(), d.d.Ciphertext.CType(), d.d.Ciphertext.Recipients())
	}
	if (d.d.Proof != nil) != (kind == kMasked || kind == kProduct) {
		c.Fatalf("%s dealing with proof %v", kindName[kind], d.d.Proof)
	}
	if d.d.Commitment.Len() != t || len(d.d.Commitment.Points()) != t {
		c.Fatalf("commitment has %d coefficients, want %d", d.d.Commitment.Len(), t)
	}
	pts := points(d.d.Commitment)

	shares := make([][]*big.Int, n)
	for i := range ps {
		if err := d.privately(i); err != nil {
			c.Fatalf("honest %s dealing (n=%d t=%d dealer=%d) fails private verification by %d: %v", kindName[kind], n, t, dealer, i, err)
		}
		o, err := dealings.CommitmentOpening.OpenDealing(d.d, ad, NI(dealer), NI(i), ps[i].SK, ps[i].PK)
		Must(c, err, "OpenDealing(%d)", i)
		shares[i] = OpVals(o)
		if (len(shares[i]) == 2) != isPair(kind) {
			c.Fatalf("opening of a %s dealing has %d parts", kindName[kind], len(shares[i]))
		}
		if n < 20 || i%37 == 0 || i == n-1 {
			if !commits(pts, i, shares[i]) {
				c.Fatalf("receiver %d gets %x, which is not the committed share", i, shares[i])
			}
		}
	}
	// all shares lie on polynomials of degree below t with the committed constant
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sub := Subset(c, idx, t, "quorum")
	xs := ref.NodeXs(sub)
	var secret []*big.Int
	for part := range shares[0] {
		ys := make([]*big.Int, t)
		for j, i := range sub {
			ys[j] = shares[i][part]
		}
		secret = append(secret, ref.InterpAt(xs, ys, new(big.Int)))
		for i := 0; i < n; i++ {
			if n < 20 || i%41 == 0 {
				if v := ref.InterpAt(xs, ys, ref.NodeX(i)); v.Cmp(shares[i][part]) != 0 {
					c.Fatalf("share %d of %d is not on the polynomial of degree < %d through the others", i, n, t)
				}
			}
		}
	}
	if !commitTo(secret).Eq(pts[0]) {
		c.Fatalf("%s dealing: the quorum %v interpolates to a secret that is not the committed constant", kindName[kind], sub)
	}
	if want := b.secret(dealer); want != nil && secret[0].Cmp(want) != 0 {
		c.Fatalf("%s dealing shares %x, the intended secret is %x", kindName[kind], secret[0], want)
	}
}

func refusedDealing(c *C) {
	kind := Int(c, 0, 3, "kind")
	n := Int(c, 0, 5, "n")
	b := makeBase(c, kind, 2, "base")
	ps := parties(c, n, "keys")
	dealer := Node(c, "dealer")
	sh := b.shares(dealer)
	t := Pick(c, []int{0, n + 1, n + 2, 2*n + 3, 1000, 1 << 20}, "t")
	what := "threshold"
	switch Int(c, 0, 4, "unknown kind") {
	case 3:
		t, what = Int(c, 1, n, "t2"), "kind"
		if n == 0 {
			t = 0
		}
		sh = Pick(c, []dealings.SecretShares{nil, "x", 7, struct{}{}}, "shares")
	}
	c.Key(kind, n, t, dealer, what)
	c.Note("%s dealing request to %d receivers with threshold %d, bad %s", kindName[kind], n, t, what)
	_, err := dealings.NewIDkgDealingInternal(sh, K, Seed(c, "s"), t, pks(ps), NI(dealer), nil)
	MustErr(c, err, "dealing of %T with threshold %d to %d receivers", sh, t, n)
}

func sharesFrom(c *C) {
	a, b := Scalar(c, "a"), Scalar(c, "b")
	x, y := Scalar(c, "x"), Scalar(c, "y")
	k := Int(c, 0, 6, "combination")
	c.Key(a, b, x, y, k)
	c.Note("combination %d of (%x,%x) (%x,%x)", k, a, b, x, y)
	form := func(o poly.CommitmentOpening) poly.CommitmentOpeningBytes {
		if Bool(c, "ptr") {
			o = PtrOp(o)
		}
		return o.ToCommitmentOpeningBytes()
	}
	s, p, s2, p2 := form(SimpleOp(a)), form(PedersenOp(a, b)), form(SimpleOp(x)), form(PedersenOp(x, y))
	switch k {
	case 0, 1:
		r, err := dealings.Secret.From(s, nil)
		Must(c, err, "Secret.From(simple)")
		u, ok := r.(*dealings.ReshareOfUnmaskedSecret)
		if !ok {
			c.Fatalf("Secret.From(simple) is a %T", r)
		}
		checkScalar(c, u.S1, a, "unmasked secret")
	case 2:
		r, err := dealings.Secret.From(p, nil)
		Must(c, err, "Secret.From(pedersen)")
		u, ok := r.(*dealings.ReshareOfMaskedSecret)
		if !ok {
			c.Fatalf("Secret.From(pedersen) is a %T", r)
		}
		checkScalar(c, u.S1, a, "masked secret")
		checkScalar(c, u.S2, b, "mask")
	case 3:
		r, err := dealings.Secret.From(s, p2)
		Must(c, err, "Secret.From(simple, pedersen)")
		u, ok := r.(*dealings.UnmaskedTimesMaskedSecret)
		if !ok {
			c.Fatalf("Secret.From(simple, pedersen) is a %T", r)
		}
		checkScalar(c, u.Left, a, "left")
		checkScalar(c, u.Right[0], x, "right")
		checkScalar(c, u.Right[1], y, "right mask")
	case 4:
		_, err := dealings.Secret.From(s, s2)
		MustErr(c, err, "Secret.From(simple, simple)")
	case 5:
		_, err := dealings.Secret.From(p, Pick(c, []poly.CommitmentOpeningBytes{s2, p2}, "second"))
		MustErr(c, err, "Secret.From(pedersen, any)")
	case 6:
		_, err := dealings.Secret.From(nil, Pick(c, []poly.CommitmentOpeningBytes{nil, s2, p2}, "second"))
		MustErr(c, err, "Secret.From(nil, any)")
	}
}
