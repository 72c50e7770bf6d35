package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/sign"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP04(t *testing.T) {
	Run(t, "P04", []Sub{
		{"derive", "a signing context with arbitrary key and presignature points, path, hash and randomness of any length; all count", 1500, deriveRho},
		{"binding", "two contexts that differ in one part: bit, length, boundary between parts, point or sign of a point; all count", 1300, rhoBinding},
		{"convert", "points with small, large and over-the-order x coordinates, hashes of any length; all count", 4000, convertParts},
		{"refused", "a presignature transcript that is not an unmasked resharing, in every signing operation; all count", 300, wrongPresigs},
	})
}

// rawCtx are the public parts of a signing context
type rawCtx struct {
	key, pre   ref.Pt
	path       [][]byte
	hash, rand []byte
}

func drawRaw(c *C) rawCtx {
	x := rawCtx{NonIdPoint(c, "key"), AnyPoint(c, "pre"), Path(c, 4, "path"), Data(c, "hash"), Data(c, "randomness")}
	return x
}
func (x rawCtx) derive(c *C, extra ...ref.Pt) (r, tweak, rnd *big.Int, R ref.Pt) {
	kt := resharing(append([]ref.Pt{x.key}, extra...))
	if Bool(c, "masked key") { // whatever the key transcript is, its point counts
		kt = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: kt.CombinedCommitment.(*dealings.InterpolationCommitment).PolynomialCommitment}}
	}
	pt := resharing(append([]ref.Pt{x.pre}, extra...))
	before := Dump(kt) + Dump(pt)
	h, rn := append([]byte{}, x.hash...), append([]byte{}, x.rand...)
	a, b, d, p, err := sign.DeriveRho(K, h, rn, libPath(x.path), kt, pt)
	Must(c, err, "DeriveRho")
	if Dump(kt)+Dump(pt) != before || !bytes.Equal(h, x.hash) || !bytes.Equal(rn, x.rand) {
		c.Fatalf("DeriveRho changed its inputs")
	}
	c.Owned(a, b, d, p)
	return V(a), V(b), V(d), PV(p)
}
func (x rawCtx) String() string {
	return fmt.Sprintf("key %s presig %s path %s hash %d bytes randomness %d bytes", x.key, x.pre, pathString(x.path), len(x.hash), len(x.rand))
}
func (x rawCtx) key_(c *C) {
	c.Key(x.key.String(), x.pre.String(), pathString(x.path), x.hash, x.rand)
}

func deriveRho(c *C) {
	x := drawRaw(c)
	x.key_(c)
	c.Note("%s", x)
	c.Label("path=%d", len(x.path))
	var extra []ref.Pt
	if Bool(c, "longer") {
		extra = append(extra, AnyPoint(c, "extra"))
	}
	r, tweak, rnd, R := x.derive(c, extra...)
	wr, wt, wrnd, wR := refRho(x.key, x.pre, x.path, x.hash, x.rand)
	if r.Cmp(wr) != 0 || tweak.Cmp(wt) != 0 || rnd.Cmp(wrnd) != 0 || !R.Eq(wR) {
		c.Fatalf("%s: r %x tweak %x randomizer %x point %s, want %x %x %x %s", x, r, tweak, rnd, R, wr, wt, wrnd, wR)
	}
}

func rhoBinding(c *C) {
	x := drawRaw(c)
	y := x
	what := ""
	switch Int(c, 0, 7, "part") {
	case 0, 1:
		what, y.hash = "hash", AlterBytes(c, x.hash, "hash'")
	case 2, 3:
		what, y.rand = "randomness", AlterBytes(c, x.rand, "randomness'")
	case 4:
		what, y.pre = "presignature point", OtherPoint(c, x.pre, "pre'")
	case 5:
		what, y.path = "path", alterPath(c, x.path)
	case 6: // the last byte of one becomes the first of the other
		what = "boundary"
		if len(x.rand) > 0 {
			n := len(x.rand)
			y.rand, y.hash = x.rand[:n-1], append([]byte{x.rand[n-1]}, x.hash...)
		} else {
			y.rand, y.hash = []byte{0}, x.hash
		}
	case 7:
		what = "hash and randomness exchanged"
		y.rand, y.hash = x.hash, x.rand
		if bytes.Equal(x.rand, x.hash) {
			y.hash = append(append([]byte{}, x.hash...), 0)
		}
	}
	x.key_(c)
	c.Key(what)
	c.Label("%s", what)
	c.Note("%s, another %s", x, what)
	r, _, rnd, R := x.derive(c)
	r2, _, rnd2, R2 := y.derive(c)
	if rnd.Cmp(rnd2) == 0 || r.Cmp(r2) == 0 || R.Eq(R2) {
		c.Fatalf("%s: another %s gives the same nonce", x, what)
	}
}

func convertParts(c *C) {
	if Bool(c, "hash") {
		h := Data(c, "hash")
		if OneIn(c, 3, "around the order") {
			h = append(ref.B32(new(big.Int).Add(ref.Q, big.NewInt(int64(Int(c, -3, 3, "d"))))), Bytes(c, 20, "tail")...)
		}
		c.Key("h", h)
		c.Label("hash length %s", bucket(len(h), 1, 32, 33))
		c.Note("hash %s", ref.Hex(h))
		in := append([]byte{}, h...)
		v, err := sign.ConvertHashToInteger(in, K)
		Must(c, err, "ConvertHashToInteger(%x)", h)
		if V(v).Cmp(ref.HashInt(h)) != 0 {
			c.Fatalf("hash %x converts to %x, want %x", h, V(v), ref.HashInt(h))
		}
		if !bytes.Equal(in, h) {
			c.Fatalf("hash changed")
		}
		return
	}
	p := NonIdPoint(c, "point")
	c.Key("p", p.String())
	c.Label("x over the order: %v", p.X.Cmp(ref.Q) >= 0)
	c.Note("point %s", p)
	l := Pt(p)
	v, err := sign.EcdsaConversion(l)
	Must(c, err, "EcdsaConversion(%s)", p)
	if V(v).Cmp(ref.Mod(p.X, ref.Q)) != 0 {
		c.Fatalf("point %s converts to %x", p, V(v))
	}
	if !PV(l).Eq(p) {
		c.Fatalf("point changed")
	}
}

func wrongPresigs(c *C) {
	s := synth(c, Int(c, 1, 2, "t"))
	s.drawMsg(c)
	bad, what := wrongPresig(c, s.pre.pts())
	c.Key(what)
	c.Label("%s", what)
	c.Note("%s: presignature transcript is %s", s, what)
	i := Node(c, "signer")
	sh := s.libShare(c, i)
	Must(c, s.verifyShare(sh, i), "share")
	o := *s
	o.pre = &trans{T: bad}
	_, _, _, _, err := sign.DeriveRho(K, s.hash, s.randomnes, libPath(s.path), s.key.T, bad)
	MustErr(c, err, "DeriveRho with a %s as presignature", what)
	_, err = o.newShare(mkOpening(s.lambda.share(i)), mkOpening(s.kl.share(i)), mkOpening(s.xl.share(i)))
	MustErr(c, err, "share with a %s as presignature", what)
	MustErr(c, o.verifyShare(sh, i), "verification of a share with a %s as presignature", what)
	idx := NodeSet(c, s.t, "signers")
	var shs []*sign.ThresholdEcdsaSigShareInternal
	for _, k := range idx {
		shs = append(shs, s.libShare(c, k))
	}
	sig, err := s.combine(idx, shs)
	Must(c, err, "combined signature")
	Must(c, s.verify(sig), "combined signature")
	_, err = o.combine(idx, shs)
	MustErr(c, err, "combination with a %s as presignature", what)
	MustErr(c, o.verify(sig), "verification of a signature with a %s as presignature", what)
}
