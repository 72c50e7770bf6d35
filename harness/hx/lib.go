package hx

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/tidwall/btree"

	"verifharness/ref"
)

const K = curve.K256

type NI = common.NodeIndex

// S is the library's scalar of value v
func S(v *big.Int) curve.EccScalar {
	s, err := curve.Scalar.Deserialize(K, ref.B32(v))
	if err != nil {
		panic(fmt.Sprintf("scalar %x refused: %v", v, err))
	}
	return s
}
func Ss(vs []*big.Int) []curve.EccScalar {
	r := make([]curve.EccScalar, len(vs))
	for i := range vs {
		r[i] = S(vs[i])
	}
	return r
}

// V is the value of a library scalar
func V(s curve.EccScalar) *big.Int { return new(big.Int).SetBytes(s.Serialize()) }

// Pt is the library's point
func Pt(p ref.Pt) curve.EccPoint {
	r, err := curve.Point.Deserialize(K, p.Bytes())
	if err != nil {
		panic(fmt.Sprintf("point %s refused: %v", p, err))
	}
	return r
}
func Pts(ps []ref.Pt) []curve.EccPoint {
	r := make([]curve.EccPoint, len(ps))
	for i := range ps {
		r[i] = Pt(ps[i])
	}
	return r
}

// PV is the value of a library point
func PV(p curve.EccPoint) ref.Pt {
	r, ok := ref.Decode(p.Serialize())
	if !ok {
		panic(fmt.Sprintf("library point encodes to %x, which is no point", p.Serialize()))
	}
	return r
}
func PVs(ps []curve.EccPoint) []ref.Pt {
	r := make([]ref.Pt, len(ps))
	for i := range ps {
		r[i] = PV(ps[i])
	}
	return r
}

// Poly is the library's polynomial
func Poly(p ref.Poly) *poly.Polynomial { return poly.Poly.New(K, Ss(p)) }

func Seed(c *C, label string) *seed.Seed { return seed.FromBytes(Expand(U64(c, label), 16)) }

// SimplePts and PedersenPts are the points a commitment must have
func SimplePts(p ref.Poly) []ref.Pt {
	r := make([]ref.Pt, len(p))
	for i := range p {
		r[i] = ref.MulG(p[i])
	}
	return r
}
func PedersenPts(v, m ref.Poly) []ref.Pt {
	r := make([]ref.Pt, len(v))
	for i := range v {
		r[i] = ref.Pedersen(v[i], m[i])
	}
	return r
}
func SimpleCom(p ref.Poly) *poly.SimpleCommitment { return poly.SimpleCM.New(Pts(SimplePts(p))) }
func PedersenCom(v, m ref.Poly) *poly.PedersenCommitment {
	return poly.PedersenCM.New(Pts(PedersenPts(v, m)))
}
func SimpleOp(v *big.Int) poly.SimpleCommitmentOpening { return poly.SimpleCommitmentOpening{S(v)} }
func PedersenOp(v, m *big.Int) poly.PedersenCommitmentOpening {
	return poly.PedersenCommitmentOpening{S(v), S(m)}
}

// OpVals are the scalars of an opening, value first
func OpVals(o poly.CommitmentOpening) []*big.Int {
	switch o := o.(type) {
	case poly.SimpleCommitmentOpening:
		return []*big.Int{V(o[0])}
	case *poly.SimpleCommitmentOpening:
		return []*big.Int{V(o[0])}
	case poly.PedersenCommitmentOpening:
		return []*big.Int{V(o[0]), V(o[1])}
	case *poly.PedersenCommitmentOpening:
		return []*big.Int{V(o[0]), V(o[1])}
	}
	panic(fmt.Sprintf("not an opening: %T", o))
}
func SameVals(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// PtrOp returns the pointer form of an opening, as Deserialize produces it
func PtrOp(o poly.CommitmentOpening) poly.CommitmentOpening {
	switch o := o.(type) {
	case poly.SimpleCommitmentOpening:
		return &o
	case poly.PedersenCommitmentOpening:
		return &o
	}
	return o
}

// Map builds a btree map
func Map[V any](idx []int, vs []V) *btree.Map[NI, V] {
	m := &btree.Map[NI, V]{}
	for i := range idx {
		m.Set(NI(idx[i]), vs[i])
	}
	return m
}

// ---- access to the scalars and points inside a value, wherever they are kept

var (
	scalarT = reflect.TypeOf((*curve.EccScalar)(nil)).Elem()
	pointT  = reflect.TypeOf((*curve.EccPoint)(nil)).Elem()
	fieldT  = reflect.TypeOf((*curve.EccFieldElement)(nil)).Elem()
)

// Leaf is a slot holding a scalar or a point
type Leaf struct {
	Path string
	Get  func() any // curve.EccScalar or curve.EccPoint
	Set  func(any)
}

func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// Leaves lists the slots below the pointer x
func Leaves(x any) []Leaf {
	var out []Leaf
	walk(reflect.ValueOf(x).Elem(), "", func() {}, &out, 0)
	return out
}

func isLeaf(v reflect.Value) bool {
	t := v.Type()
	return (t == scalarT || t == pointT) || (t.Kind() == reflect.Ptr && (t.Implements(scalarT) || t.Implements(pointT)))
}

func walk(v reflect.Value, path string, commit func(), out *[]Leaf, depth int) {
	if depth > 12 {
		return
	}
	v = open(v)
	if isLeaf(v) {
		if v.IsNil() {
			return
		}
		*out = append(*out, Leaf{path, func() any { return v.Interface() }, func(n any) { v.Set(reflect.ValueOf(n)); commit() }})
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walk(v.Elem(), path, commit, out, depth+1)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr && e.IsNil() {
			return
		}
		if isLeaf(e) { // in an interface of another type
			*out = append(*out, Leaf{path, func() any { return e.Interface() }, func(n any) { v.Set(reflect.ValueOf(n)); commit() }})
			return
		}
		if e.Kind() == reflect.Ptr {
			walk(e.Elem(), path, commit, out, depth+1)
			return
		}
		cp := reflect.New(e.Type()).Elem()
		cp.Set(e)
		walk(cp, path, func() { v.Set(cp); commit() }, out, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), path+"."+v.Type().Field(i).Name, commit, out, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), commit, out, depth+1)
		}
	}
}

// Copy is a deep copy; scalars and points are rebuilt from their encodings
func Copy[T any](x T) T {
	src := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	src.Set(reflect.ValueOf(&x).Elem())
	dst := reflect.New(src.Type()).Elem()
	deep(dst, src)
	return dst.Interface().(T)
}

func deep(dst, src reflect.Value) {
	dst, src = open(dst), open(src)
	if f, ok := fieldEl(src); ok {
		n, err := curve.Field.FromBytes(K, f.AsBytes())
		if err != nil {
			panic(err)
		}
		dst.Set(reflect.ValueOf(n))
		return
	}
	if isLeaf(src) {
		if src.IsNil() {
			return
		}
		switch l := src.Interface().(type) {
		case curve.EccScalar:
			dst.Set(reflect.ValueOf(S(V(l))))
		case curve.EccPoint:
			p, err := curve.Point.Deserialize(K, l.Serialize())
			if err != nil {
				panic(fmt.Sprintf("library point encodes to %x, which it does not decode: %v", l.Serialize(), err))
			}
			dst.Set(reflect.ValueOf(p))
		}
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		n := reflect.New(src.Type().Elem())
		deep(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := reflect.New(src.Elem().Type()).Elem()
		e.Set(src.Elem())
		n := reflect.New(src.Elem().Type()).Elem()
		deep(n, e)
		dst.Set(n)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			deep(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			deep(n.Index(i), src.Index(i))
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			deep(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMapWithSize(src.Type(), src.Len())
		for it := src.MapRange(); it.Next(); {
			k, v := reflect.New(src.Type().Key()).Elem(), reflect.New(src.Type().Elem()).Elem()
			k.Set(it.Key())
			v.Set(it.Value())
			w := reflect.New(src.Type().Elem()).Elem()
			deep(w, v)
			n.SetMapIndex(k, w)
		}
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

func fieldEl(v reflect.Value) (curve.EccFieldElement, bool) {
	t := v.Type()
	if (t == fieldT || t.Kind() == reflect.Ptr && t.Implements(fieldT)) && !v.IsNil() {
		return v.Interface().(curve.EccFieldElement), true
	}
	return nil, false
}

// Dump writes out the value of x: scalars and points by their encoding, the
// rest structurally. Two dumps are equal iff nothing observable changed.
func Dump(x any) string {
	var b strings.Builder
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	v.Set(reflect.ValueOf(&x).Elem())
	dump(&b, v, 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 16 {
		return
	}
	v = open(v)
	if f, ok := fieldEl(v); ok {
		b.WriteString("f" + hex.EncodeToString(f.AsBytes()) + ";")
		return
	}
	if isLeaf(v) {
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		switch l := v.Interface().(type) {
		case curve.EccScalar:
			b.WriteString("s" + hex.EncodeToString(l.Serialize()) + ";")
		case curve.EccPoint:
			b.WriteString("p" + hex.EncodeToString(l.Serialize()) + ";")
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String() + ":")
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			dump(b, e, depth+1)
			return
		}
		if m, ok := v.Interface().(interface{ Len() int }); ok {
			if k := v.MethodByName("Keys"); k.IsValid() {
				if vs := v.MethodByName("Values"); vs.IsValid() { // an ordered map
					fmt.Fprintf(b, "map%d{", m.Len())
					dump(b, k.Call(nil)[0], depth+1)
					dump(b, vs.Call(nil)[0], depth+1)
					b.WriteString("}")
					return
				}
			}
		}
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		if v.CanInterface() {
			fmt.Fprintf(b, "%v;", v.Interface())
		} else {
			fmt.Fprintf(b, "%v;", v)
		}
	}
}

// Spoil changes scalars, points, field elements and bytes of x in place
func Spoil(x any) {
	if b, ok := x.([]byte); ok {
		for i := range b {
			b[i] ^= 0xa5
		}
		return
	}
	if fs, ok := x.([]curve.EccFieldElement); ok {
		for _, f := range fs {
			Spoil(f)
		}
		return
	}
	if f, ok := x.(curve.EccFieldElement); ok {
		f.Assign(curve.Field.One(K))
		return
	}
	for _, l := range Leaves(&x) {
		switch v := l.Get().(type) {
		case curve.EccScalar:
			v.Assign(S(big.NewInt(0x50118d)))
		case curve.EccPoint:
			v.Assign(Pt(ref.MulG(big.NewInt(0x50118d))))
		}
	}
}
