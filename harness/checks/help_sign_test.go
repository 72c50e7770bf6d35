package checks

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"

	. "verifharness/hx"
	"verifharness/ref"
)

// sctx is everything a signature depends on, in the plain
type sctx struct {
	key, pre        *trans // unmasked: the key x and the nonce k
	lambda, kl, xl  *trans // masked: l, k·l, x·l
	path            [][]byte
	hash, randomnes []byte
	t               int
}

// drawMsgCtx fills in what is signed
func (s *sctx) drawMsg(c *C) {
	s.path = Path(c, 3, "path")
	s.hash = Data(c, "hash")
	if Bool(c, "sha256") {
		s.hash = Expand(U64(c, "hash32"), 32)
	}
	s.randomnes = Data(c, "randomness")
	if Bool(c, "32") {
		s.randomnes = Expand(U64(c, "randomness32"), 32)
	}
	c.Key(pathString(s.path), s.hash, s.randomnes)
}

// synth makes the five transcripts out of random polynomials
func synth(c *C, t int) *sctx {
	s := &sctx{t: t}
	x, k, l := NonZero(c, "x"), NonZero(c, "k"), NonZero(c, "l")
	// shares are taken at the largest threshold of the masked three; those of
	// the key and the nonce do not matter to it
	ts := [5]int{t, t, t, t, t}
	if OneIn(c, 3, "thresholds differ") {
		for i := range ts {
			if i < 2 {
				ts[i] = 1 + int(U64(c, "t")%uint64(t+3))
			} else if OneIn(c, 3, "lower") {
				ts[i] = 1 + int(U64(c, "t")%uint64(t))
			}
		}
		ts[2+int(U64(c, "full")%3)] = t
		c.Label("thresholds differ")
	}
	s.key = known(bulkPoly(c, x, ts[0], "key"), nil, false)
	s.pre = known(bulkPoly(c, k, ts[1], "pre"), nil, false)
	s.lambda = known(bulkPoly(c, l, ts[2], "lambda"), bulkPoly(c, nil, ts[2], "lambda mask"), true)
	s.kl = known(bulkPoly(c, ref.Mul(k, l), ts[3], "kl"), bulkPoly(c, nil, ts[3], "kl mask"), false)
	s.xl = known(bulkPoly(c, ref.Mul(x, l), ts[4], "xl"), bulkPoly(c, nil, ts[4], "xl mask"), false)
	c.Key(ts, x, k, l)
	return s
}

// degenerate sometimes moves the masked transcripts so that one of the openings of
// signer i, its numerator or its denominator is zero, with or without its mask;
// the context then has no signature any more, but its shares are as well defined
func (s *sctx) degenerate(c *C, i int) { s.degenerateIn(c, i, false) }

// keep moves higher coefficients only, so that the context keeps its signature; transcripts
// of threshold one are left alone then
func (s *sctx) degenerateIn(c *C, i int, keep bool) {
	if !OneIn(c, 5, "degenerate") {
		return
	}
	what := ""
	move := func(t **trans, want *big.Int, mask *big.Int) {
		sh := (*t).share(i)
		f, m := append(ref.Poly{}, (*t).f...), append(ref.Poly{}, (*t).g...)
		at, by := 0, big.NewInt(1)
		if keep {
			at, by = 1, ref.Inv(big.NewInt(int64(i)+1))
			if len(f) < 2 || len(m) < 2 || len((*t).f) != len(f) {
				return
			}
		}
		f[at] = ref.Add(f[at], ref.Mul(by, ref.Sub(want, sh[0])))
		if mask != nil {
			m[at] = ref.Add(m[at], ref.Mul(by, ref.Sub(mask, sh[1])))
		}
		_, sum := (*t).T.CombinedCommitment.(*dealings.SummationCommitment)
		*t = known(f, m, sum)
	}
	zero := new(big.Int)
	mask := zero
	if OneIn(c, 3, "keep the mask") {
		mask = nil
	}
	r, tweak, rnd, _ := s.rho()
	theta := ref.Add(ref.HashInt(s.hash), ref.Mul(r, tweak))
	times := func(a, b *big.Int) *big.Int {
		if mask == nil {
			return nil
		}
		return ref.Mul(a, b)
	}
	switch Int(c, 0, 5, "what") {
	case 0:
		what = "numerator"
		l := s.lambda.share(i)
		k := ref.Neg(ref.Mul(theta, ref.Inv(r)))
		move(&s.xl, ref.Mul(k, l[0]), times(k, l[1]))
	case 1:
		what = "denominator"
		l := s.lambda.share(i)
		k := ref.Neg(rnd)
		move(&s.kl, ref.Mul(k, l[0]), times(k, l[1]))
	case 2:
		what = "lambda"
		move(&s.lambda, zero, mask)
	case 3:
		what = "kappa lambda"
		move(&s.kl, zero, mask)
	case 4:
		what = "key lambda"
		move(&s.xl, zero, mask)
	case 5:
		what = "all"
		move(&s.lambda, zero, mask)
		move(&s.kl, zero, mask)
		move(&s.xl, zero, mask)
	}
	c.Key(what, mask == nil)
	c.Label("zero %s", what)
}

// rho are, by the book, the nonce's r, the key tweak, the randomizer and the nonce point
func (s *sctx) rho() (r, tweak, rnd *big.Int, R ref.Pt) {
	return refRho(s.key.pts()[0], s.pre.pts()[0], s.path, s.hash, s.randomnes)
}
func refRho(pk, pre ref.Pt, path [][]byte, hash, randomness []byte) (r, tweak, rnd *big.Int, R ref.Pt) {
	_, tweak, _, ok := ref.Derive(pk, path)
	if !ok {
		panic("derivation hit a probability 2^-127 case")
	}
	rnd = ref.NewRO("ic-crypto-tecdsa-rerandomize-presig").Bytes("randomness", randomness).Bytes("hashed_message", hash).
		Point("pre_sig", pre).Scalar("key_tweak", tweak).OutScalars(1)[0]
	R = pre.Add(ref.MulG(rnd))
	if R.Inf() {
		panic("identity nonce point")
	}
	return ref.Mod(R.X, ref.Q), tweak, rnd, R
}

// nu, mu is, by the book, the share at an index: numerator and denominator, each with mask
func (s *sctx) share(i int) [4]*big.Int {
	return s.shareOf(s.lambda.share(i), s.kl.share(i), s.xl.share(i))
}
func (s *sctx) shareOf(l, kl, xl []*big.Int) [4]*big.Int {
	r, tweak, rnd, _ := s.rho()
	theta := ref.Add(ref.HashInt(s.hash), ref.Mul(r, tweak))
	return [4]*big.Int{
		ref.Add(ref.Mul(theta, l[0]), ref.Mul(r, xl[0])), ref.Add(ref.Mul(theta, l[1]), ref.Mul(r, xl[1])),
		ref.Add(ref.Mul(rnd, l[0]), kl[0]), ref.Add(ref.Mul(rnd, l[1]), kl[1]),
	}
}

// signature is the one signature of the context
func (s *sctx) signature() (r, sg *big.Int) {
	r, tweak, rnd, _ := s.rho()
	num := ref.Add(ref.HashInt(s.hash), ref.Mul(r, ref.Add(s.key.secret(), tweak)))
	sg = ref.Mul(num, ref.Inv(ref.Add(s.pre.secret(), rnd)))
	if sg.Cmp(ref.Half) > 0 {
		sg = ref.Neg(sg)
	}
	return r, sg
}

// pk is the derived public key
func (s *sctx) pk() ref.Pt {
	p, _, _, _ := ref.Derive(s.key.pts()[0], s.path)
	return p
}

// accepts tells, by the book, whether (r, sg) is the context's signature
func (s *sctx) accepts(r, sg *big.Int) bool {
	rho, _, _, R := s.rho()
	if r.Cmp(rho) != 0 || r.Sign() == 0 || sg.Sign() == 0 || sg.Cmp(ref.Half) > 0 {
		return false
	}
	w := ref.Inv(sg)
	P := ref.MulG(ref.Mul(ref.HashInt(s.hash), w)).Add(s.pk().Mul(ref.Mul(r, w)))
	return !P.Inf() && P.X.Cmp(R.X) == 0
}

func (s *sctx) newShare(l, kl, xl poly.CommitmentOpening) (*sign.ThresholdEcdsaSigShareInternal, error) {
	return sign.NewThresholdEcdsaSigShareInternal(libPath(s.path), s.hash, s.randomnes, s.key.T, s.pre.T, l, kl, xl, K)
}

// libShare is the share of signer i
func (s *sctx) libShare(c *C, i int) *sign.ThresholdEcdsaSigShareInternal {
	var ops []poly.CommitmentOpening
	for _, t := range []*trans{s.lambda, s.kl, s.xl} {
		op := mkOpening(t.share(i))
		if t.ops != nil {
			op = t.ops[i]
		}
		if OneIn(c, 4, "pointer") {
			op = PtrOp(op)
		}
		ops = append(ops, op)
	}
	sh, err := s.newShare(ops[0], ops[1], ops[2])
	Must(c, err, "share of signer %d", i)
	c.Loose(sh)
	return sh
}
func (s *sctx) verifyShare(sh *sign.ThresholdEcdsaSigShareInternal, i int) error {
	return sh.Verify(libPath(s.path), s.hash, s.randomnes, NI(i), s.key.T, s.pre.T, s.lambda.T, s.kl.T, s.xl.T, K)
}
func (s *sctx) combine(idx []int, shs []*sign.ThresholdEcdsaSigShareInternal) (*sign.ThresholdEcdsaCombinedSigInternal, error) {
	return sign.NewThresholdEcdsaCombinedSigInternal(libPath(s.path), s.hash, s.randomnes, s.key.T, s.pre.T, s.t, Map(idx, shs), K)
}
func (s *sctx) verify(sg *sign.ThresholdEcdsaCombinedSigInternal) error {
	return sg.Verify(libPath(s.path), s.hash, s.randomnes, s.key.T, s.pre.T, K)
}
func (s *sctx) dump() string {
	var b string
	for _, t := range []*trans{s.key, s.pre, s.lambda, s.kl, s.xl} {
		b += Dump(t.T)
	}
	return b + pathString(s.path) + ref.Hex(s.hash) + ref.Hex(s.randomnes)
}

// alterPath is another derivation path
func alterPath(c *C, p [][]byte) [][]byte {
	r := make([][]byte, len(p))
	for i := range p {
		r[i] = append([]byte{}, p[i]...)
	}
	k := Int(c, 0, 4, "path.alt")
	if len(p) == 0 {
		k = 0
	}
	switch k {
	case 0:
		return append(r, Bytes(c, 40, "path.more"))
	case 1:
		return r[:len(r)-1]
	case 2:
		i := Int(c, 0, len(r)-1, "path.i")
		r[i] = AlterBytes(c, r[i], "path.el")
	case 3: // move a byte over a boundary
		i := Int(c, 0, len(r)-1, "path.i")
		if len(r[i]) == 0 {
			return append(r, []byte{})
		}
		n := len(r[i])
		tail := r[i][n-1:]
		q := append([][]byte{}, r[:i]...)
		q = append(q, r[i][:n-1])
		if i+1 < len(r) {
			q = append(q, append(append([]byte{}, tail...), r[i+1]...))
			q = append(q, r[i+2:]...)
		} else {
			q = append(q, tail)
		}
		return q
	case 4:
		if len(r) > 1 && string(r[0]) != string(r[1]) {
			r[0], r[1] = r[1], r[0]
		} else {
			r = append([][]byte{{}}, r...)
		}
	}
	return r
}

// otherCtx is the context with one of its parts changed
func (s *sctx) otherCtx(c *C) (*sctx, string) {
	o := *s
	other := func(t *trans, l string) *trans {
		f, g := append(ref.Poly{}, t.f...), append(ref.Poly(nil), t.g...)
		if len(g) == 0 {
			g = nil
		}
		i := 0
		if len(f) > 1 && Bool(c, l+".higher") {
			i = Int(c, 1, len(f)-1, l+".i")
		}
		if g != nil && Bool(c, l+".mask") {
			g[i] = OtherScalar(c, g[i], l)
		} else {
			f[i] = OtherScalar(c, f[i], l)
			if i == 0 && f[0].Sign() == 0 && g == nil {
				f[0] = ref.Add(t.f[0], big.NewInt(7))
				if f[0].Sign() == 0 {
					f[0] = big.NewInt(5)
				}
			}
		}
		_, sum := t.T.CombinedCommitment.(*dealings.SummationCommitment)
		return known(f, g, sum)
	}
	switch Int(c, 0, 8, "part") {
	case 0:
		o.hash = AlterBytes(c, s.hash, "hash'")
		return &o, "hash"
	case 1: // beyond the bits that are signed
		o.hash = append(append([]byte{}, s.hash...), Bytes(c, 30, "tail")...)
		return &o, "hash tail"
	case 2:
		o.randomnes = AlterBytes(c, s.randomnes, "randomness'")
		return &o, "randomness"
	case 3:
		o.path = alterPath(c, s.path)
		return &o, "path"
	case 4:
		o.key = other(s.key, "key'")
		return &o, "key"
	case 5:
		o.pre = other(s.pre, "pre'")
		return &o, "presignature"
	case 6:
		o.lambda = other(s.lambda, "lambda'")
		return &o, "lambda"
	case 7:
		o.kl = other(s.kl, "kl'")
		return &o, "nonce times lambda"
	}
	o.xl = other(s.xl, "xl'")
	return &o, "key times lambda"
}

// wrongPresig is a presignature transcript that is not an unmasked resharing
func wrongPresig(c *C, pts []ref.Pt) (*dealings.IDkgTranscriptInternal, string) {
	s, p := poly.SimpleCM.New(Pts(pts)), poly.PedersenCM.New(Pts(pts))
	switch Int(c, 0, 3, "wrong presig") {
	case 0:
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: p}}, "masked sum"
	case 1:
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: s}}, "sum"
	case 2:
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: p}}, "masked resharing"
	}
	return &dealings.IDkgTranscriptInternal{}, "nothing"
}

func (s *sctx) String() string {
	return fmt.Sprintf("t=%d path %s, hash of %d bytes, randomness of %d bytes", s.t, pathString(s.path), len(s.hash), len(s.randomnes))
}

// resharing is an unmasked transcript with the given commitment
func resharing(pts []ref.Pt) *dealings.IDkgTranscriptInternal {
	return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: poly.SimpleCM.New(Pts(pts))}}
}
