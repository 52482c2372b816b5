// Package insp walks values of the code under test by reflection, so that the
// monitors can observe and alter state held in unexported fields without
// depending on field names.
package insp

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/tidwall/btree"
)

var (
	scalarT = reflect.TypeOf((*curve.EccScalar)(nil)).Elem()
	pointT  = reflect.TypeOf((*curve.EccPoint)(nil)).Elem()
	feT     = reflect.TypeOf((*curve.EccFieldElement)(nil)).Elem()
)

// Leaf is a group element or scalar somewhere inside a value.
type Leaf struct {
	Path   string
	Scalar curve.EccScalar
	Point  curve.EccPoint
	Bytes  []byte
}

// access makes v readable and settable even if it is an unexported field.
func access(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// addressable returns an addressable copy if v is not addressable.
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func leafOf(v reflect.Value) (curve.EccScalar, curve.EccPoint, bool) {
	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
		return nil, nil, false
	}
	try := func(i interface{}) (curve.EccScalar, curve.EccPoint, bool) {
		if s, ok := i.(curve.EccScalar); ok {
			return s, nil, true
		}
		if p, ok := i.(curve.EccPoint); ok {
			return nil, p, true
		}
		return nil, nil, false
	}
	if v.Type().Implements(scalarT) || v.Type().Implements(pointT) {
		return try(v.Interface())
	}
	if v.Kind() == reflect.Interface {
		e := v.Elem()
		if e.Type().Implements(scalarT) || e.Type().Implements(pointT) {
			return try(e.Interface())
		}
	}
	if v.Kind() == reflect.Struct && v.CanAddr() {
		pt := reflect.PtrTo(v.Type())
		if pt.Implements(scalarT) || pt.Implements(pointT) {
			return try(v.Addr().Interface())
		}
	}
	return nil, nil, false
}

type walker struct {
	seen   map[uintptr]bool
	leaves []Leaf
	bytes  bool
}

func (w *walker) walk(v reflect.Value, path string) {
	v = access(v)
	if s, p, ok := leafOf(v); ok {
		w.leaves = append(w.leaves, Leaf{Path: path, Scalar: s, Point: p})
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || w.seen[v.Pointer()] {
			return
		}
		w.seen[v.Pointer()] = true
		w.walk(v.Elem(), path)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Ptr {
			e = addressable(e)
		}
		w.walk(e, path)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), path+"."+v.Type().Field(i).Name)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	}
}

// Leaves returns the scalars and points inside x in a deterministic order.
// x should be a pointer (or contain pointers) for the leaves to be live.
func Leaves(x interface{}) []Leaf {
	w := &walker{seen: map[uintptr]bool{}}
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return nil
	}
	w.walk(addressable(v), "")
	return w.leaves
}

// OpenLeaves returns the scalars, points and non-empty byte slices that a holder of x
// reaches through exported fields and elements, each one once.
func OpenLeaves(x interface{}) []Leaf {
	var out []Leaf
	seen := map[interface{}]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		if s, p, ok := leafOf(v); ok {
			var k interface{} = s
			if s == nil {
				k = p
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, Leaf{Path: path, Scalar: s, Point: p})
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem(), path)
		case reflect.Interface:
			if !v.IsNil() {
				e := v.Elem()
				if e.Kind() != reflect.Ptr {
					e = addressable(e)
				}
				walk(e, path)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), path+"."+v.Type().Field(i).Name)
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Kind() == reflect.Slice && v.Len() > 0 && v.Type() == reflect.TypeOf([]byte(nil)) {
					out = append(out, Leaf{Path: path, Bytes: v.Bytes()})
				}
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	v := reflect.ValueOf(x)
	if v.IsValid() {
		walk(addressable(v), "")
	}
	return out
}

// Scalars returns only the scalar leaves.
func Scalars(x interface{}) []curve.EccScalar {
	var out []curve.EccScalar
	for _, l := range Leaves(x) {
		if l.Scalar != nil {
			out = append(out, l.Scalar)
		}
	}
	return out
}

// Clone deep-copies x. Every scalar and point is a fresh object.
func Clone(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return nil
	}
	return clone(v, map[uintptr]reflect.Value{}).Interface()
}

func clone(v reflect.Value, memo map[uintptr]reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	src := access(addressable(v))
	copyInto(out, src, memo)
	return out
}

func copyInto(dst, src reflect.Value, memo map[uintptr]reflect.Value) {
	dst, src = access(dst), access(src)
	if (src.Kind() == reflect.Ptr || src.Kind() == reflect.Interface) && src.IsNil() {
		return
	}
	if src.Kind() == reflect.Ptr || src.Kind() == reflect.Interface {
		if s, p, ok := leafOf(src); ok {
			if s != nil {
				dst.Set(reflect.ValueOf(s.Clone()))
			} else {
				dst.Set(reflect.ValueOf(p.Clone()))
			}
			return
		}
	}
	switch src.Kind() {
	case reflect.Ptr:
		if m, ok := memo[src.Pointer()]; ok {
			dst.Set(m)
			return
		}
		n := reflect.New(src.Type().Elem())
		memo[src.Pointer()] = n
		copyInto(n.Elem(), src.Elem(), memo)
		dst.Set(n)
	case reflect.Interface:
		e := src.Elem()
		n := reflect.New(e.Type()).Elem()
		copyInto(n, addressable(e), memo)
		dst.Set(n)
	case reflect.Struct:
		if s, p, ok := leafOf(src); ok { // by-value scalar or point
			var c reflect.Value
			if s != nil {
				c = reflect.ValueOf(s.Clone())
			} else {
				c = reflect.ValueOf(p.Clone())
			}
			if c.Kind() == reflect.Ptr {
				dst.Set(c.Elem())
			} else {
				dst.Set(c)
			}
			return
		}
		for i := 0; i < src.NumField(); i++ {
			copyInto(dst.Field(i), src.Field(i), memo)
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			copyInto(n.Index(i), src.Index(i), memo)
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i), memo)
		}
	default:
		dst.Set(src)
	}
}

// Canon renders x by value: scalars and points by their group value (not their
// representation), byte slices with their spare capacity, maps by content.
func Canon(x interface{}) string {
	var b strings.Builder
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return "nil"
	}
	canon(&b, addressable(v), map[uintptr]bool{}, 0)
	return b.String()
}

func canonMap(b *strings.Builder, i interface{}) bool {
	emit := func(k common.NodeIndex, v interface{}) bool {
		fmt.Fprintf(b, "%d=>%s;", k, Canon(v))
		return true
	}
	switch m := i.(type) {
	case *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]:
		m.Scan(func(k common.NodeIndex, v *dealings.IDkgDealingInternal) bool { return emit(k, v) })
	case *btree.Map[common.NodeIndex, poly.CommitmentOpening]:
		m.Scan(func(k common.NodeIndex, v poly.CommitmentOpening) bool { return emit(k, v) })
	case *btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]:
		m.Scan(func(k common.NodeIndex, v *btree.Map[common.NodeIndex, poly.CommitmentOpening]) bool {
			return emit(k, v)
		})
	case *btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]:
		m.Scan(func(k common.NodeIndex, v *sign.ThresholdEcdsaSigShareInternal) bool { return emit(k, v) })
	case *btree.Map[common.NodeIndex, *complaints.IDkgComplaintInternal]:
		m.Scan(func(k common.NodeIndex, v *complaints.IDkgComplaintInternal) bool { return emit(k, v) })
	default:
		return false
	}
	return true
}

func canon(b *strings.Builder, v reflect.Value, seen map[uintptr]bool, depth int) {
	v = access(v)
	if depth > 60 {
		b.WriteString("<deep>")
		return
	}
	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
		b.WriteString("nil")
		return
	}
	if s, p, ok := leafOf(v); ok {
		if s != nil {
			fmt.Fprintf(b, "S%x", s.Serialize())
		} else {
			fmt.Fprintf(b, "P%x", p.Serialize())
		}
		return
	}
	if v.Kind() == reflect.Ptr && v.Type().Implements(feT) {
		fmt.Fprintf(b, "F%x", v.Interface().(curve.EccFieldElement).AsBytes())
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if seen[v.Pointer()] {
			b.WriteString("<ref>")
			return
		}
		if canonMap(b, v.Interface()) {
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("&")
		canon(b, v.Elem(), seen, depth+1)
		delete(seen, v.Pointer())
	case reflect.Interface:
		e := v.Elem()
		if e.Kind() != reflect.Ptr {
			e = addressable(e)
		}
		b.WriteString("<" + e.Type().String() + ">")
		canon(b, e, seen, depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			canon(b, v.Field(i), seen, depth+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			full := v
			if v.Cap() > v.Len() {
				full = v.Slice(0, v.Cap())
			}
			fmt.Fprintf(b, "b%d:%s", v.Len(), hex.EncodeToString(full.Bytes()))
			return
		}
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			canon(b, v.Index(i), seen, depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canon(b, v.Index(i), seen, depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Map:
		b.WriteString("<opaque>")
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// Fields returns the settable fields of interface type t inside the struct x
// points to.
func Fields(x interface{}, t reflect.Type) []reflect.Value {
	var out []reflect.Value
	v := reflect.ValueOf(x).Elem()
	if v.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			out = append(out, access(v.Field(i)))
		}
	}
	return out
}

// Cloneable returns the objects inside x that have a Clone method without
// arguments, outermost first; objects inside a cloneable one are left out except
// at top level.
func Cloneable(x interface{}) []interface{} {
	var out []interface{}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	add := func(v reflect.Value) bool {
		m := v.MethodByName("Clone")
		if m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			out = append(out, v.Interface())
			return true
		}
		return false
	}
	walk = func(v reflect.Value, depth int) {
		v = access(v)
		if depth > 20 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if strings.Contains(v.Type().String(), "btree") {
				ScanMap(v.Interface(), func(y interface{}) { walk(reflect.ValueOf(y), depth+1) })
				return
			}
			if _, _, leaf := leafOf(v); leaf {
				add(v)
				return
			}
			add(v)
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if !v.CanAddr() {
				v = addressable(v)
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return out
}

// ScanMap visits the values of the protocol's maps.
func ScanMap(i interface{}, f func(interface{})) {
	switch m := i.(type) {
	case *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]:
		m.Scan(func(k common.NodeIndex, v *dealings.IDkgDealingInternal) bool { f(v); return true })
	case *btree.Map[common.NodeIndex, poly.CommitmentOpening]:
		m.Scan(func(k common.NodeIndex, v poly.CommitmentOpening) bool { f(v); return true })
	}
}

// Alter changes every scalar, point and field element inside x in place, and then
// replaces every element of a slice that holds such values.
func Alter(x interface{}, s func() curve.EccScalar, p func() curve.EccPoint, fe func() curve.EccFieldElement) int {
	n := 0
	if f, ok := x.(curve.EccFieldElement); ok {
		f.Add(f, fe())
		f.Assign(fe())
		return 1
	}
	for _, l := range Leaves(x) {
		if l.Scalar != nil { // arithmetic in place, and an assignment
			l.Scalar.Add(l.Scalar, s())
			l.Scalar.Assign(s())
		} else {
			l.Point.AddPoints(l.Point, p())
			l.Point.Assign(p())
		}
		n++
	}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		v = access(v)
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if _, _, leaf := leafOf(v); leaf {
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				e := access(v.Index(i))
				if e.Kind() == reflect.Interface && e.Type() == scalarT {
					e.Set(reflect.ValueOf(s()))
					n++
				} else if e.Kind() == reflect.Interface && e.Type() == pointT {
					e.Set(reflect.ValueOf(p()))
					n++
				} else if e.Kind() != reflect.Uint8 {
					walk(e)
				}
			}
		}
	}
	walk(reflect.ValueOf(x))
	return n
}

// Nil is true for a nil interface and for a nil pointer, map, slice or func.
func Nil(x interface{}) bool {
	if x == nil {
		return true
	}
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Interface, reflect.Chan:
		return v.IsNil()
	}
	return false
}
