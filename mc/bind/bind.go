// Package bind moves reference-model values into and out of generated Go
// types by reflection over their exported fields.
package bind

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode"

	"mc/zs"
)

func Title(s string) string {
	r := []rune(s)
	r[0] = unicode.ToUpper(r[0])
	return string(r)
}

// Stale makes Set fill the parameters of nested objects with leftover values
// instead of leaving them unset: encoding has to compute them in either case.
var Stale bool

// Set stores v, a value of type t, in dst (settable), with its parameters. The
// parameters of the objects inside it are for the library to pass on.
func Set(dst reflect.Value, t *zs.Type, v *zs.Val, params map[string]int64) {
	set(dst, t, v, params, false)
}

func set(dst reflect.Value, t *zs.Type, v *zs.Val, params map[string]int64, nested bool) {
	switch t.K {
	case zs.KStruct, zs.KChoice, zs.KUnion:
		for _, p := range t.Params {
			if p.T.Compound() {
				continue
			}
			if nested {
				if Stale {
					setLeaf(field(dst, p.Name), p.T, zs.Int(1))
				}
				continue
			}
			if x, ok := params[p.Name]; ok {
				setLeaf(field(dst, p.Name), p.T, zs.Int(x))
			}
		}
		if t.K == zs.KUnion {
			field(dst, "UnionChoice").SetUint(uint64(v.Tag + 1))
		}
		env := &zs.Env{P: params, T: t, V: v}
		for i, f := range t.Fields {
			if v.E[i] == nil {
				continue
			}
			setField(field(dst, f.Name), f, v.E[i], env)
		}
	default:
		setLeaf(dst, t, v)
	}
}

func field(dst reflect.Value, name string) reflect.Value {
	f := dst.FieldByName(Title(name))
	if !f.IsValid() {
		panic(fmt.Sprintf("generated type %v has no field %s", dst.Type(), Title(name)))
	}
	return f
}

func setField(dst reflect.Value, f *zs.Field, v *zs.Val, env *zs.Env) {
	if f.Opt {
		p := reflect.New(dst.Type().Elem())
		dst.Set(p)
		dst = p.Elem()
	}
	if f.Arr == nil {
		set(dst, f.T, v, zs.Params(f, env), true)
		return
	}
	s := reflect.MakeSlice(dst.Type(), len(v.E), len(v.E))
	for i, x := range v.E {
		e := *env
		e.Idx = i
		set(s.Index(i), f.T, x, zs.Params(f, &e), true)
	}
	dst.Set(s)
}

func setLeaf(dst reflect.Value, t *zs.Type, v *zs.Val) {
	switch t.K {
	case zs.KBool:
		dst.SetBool(v.I != 0)
	case zs.KF16, zs.KF32:
		dst.SetFloat(float64(math.Float32frombits(uint32(v.I))))
	case zs.KF64:
		dst.SetFloat(math.Float64frombits(uint64(v.I)))
	case zs.KString:
		dst.SetString(string(v.S))
	case zs.KBytes:
		p := reflect.New(dst.Type().Elem())
		p.Elem().FieldByName("Buffer").SetBytes(append([]byte{}, v.S...))
		p.Elem().FieldByName("ByteSize").SetUint(uint64(len(v.S)))
		dst.Set(p)
	case zs.KExtern:
		p := reflect.New(dst.Type().Elem())
		p.Elem().FieldByName("Buffer").SetBytes(append([]byte{}, v.S...))
		p.Elem().FieldByName("BitSize").SetUint(v.N)
		dst.Set(p)
	default:
		switch dst.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			dst.SetInt(v.I)
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
			dst.SetUint(uint64(v.I))
		case reflect.Bool:
			dst.SetBool(v.I != 0)
		default:
			panic(fmt.Sprintf("cannot store %s in %v", t.Text, dst.Type()))
		}
	}
}

// Diff compares the Go object with the model value; "" when they agree.
func Diff(src reflect.Value, t *zs.Type, v *zs.Val, params map[string]int64, path string) string {
	return diffAll(src, t, v, params, path, true)
}

// DiffFields is Diff without the parameters.
func DiffFields(src reflect.Value, t *zs.Type, v *zs.Val, params map[string]int64, path string) string {
	return diffAll(src, t, v, params, path, false)
}

func diffAll(src reflect.Value, t *zs.Type, v *zs.Val, params map[string]int64, path string, pars bool) string {
	switch t.K {
	case zs.KStruct, zs.KChoice, zs.KUnion:
		for _, p := range t.Params {
			if x, ok := params[p.Name]; pars && ok && !p.T.Compound() {
				if d := diffLeaf(field(src, p.Name), p.T, zs.Int(x), path+"."+p.Name); d != "" {
					return d
				}
			}
		}
		if t.K == zs.KUnion {
			if got := field(src, "UnionChoice").Uint(); got != uint64(v.Tag+1) {
				return fmt.Sprintf("%s: selection is %d, want %d", path, int64(got)-1, v.Tag)
			}
		}
		env := &zs.Env{P: params, T: t, V: v}
		for i, f := range t.Fields {
			if t.K != zs.KStruct && i != v.Tag {
				continue
			}
			if d := diffField(field(src, f.Name), f, v.E[i], env, path+"."+f.Name, pars); d != "" {
				return d
			}
		}
		return ""
	}
	return diffLeaf(src, t, v, path)
}

func diffField(src reflect.Value, f *zs.Field, v *zs.Val, env *zs.Env, path string, pars bool) string {
	if f.Opt {
		if v == nil {
			if !src.IsNil() {
				return path + ": present, want absent"
			}
			return ""
		}
		if src.IsNil() {
			return path + ": absent, want present"
		}
		src = src.Elem()
	}
	if v == nil { // condition false: untouched
		if !src.IsZero() {
			return path + ": set although its condition is false"
		}
		return ""
	}
	if f.Arr == nil {
		return diffAll(src, f.T, v, zs.Params(f, env), path, pars)
	}
	if src.Len() != len(v.E) {
		return fmt.Sprintf("%s: %d elements, want %d", path, src.Len(), len(v.E))
	}
	for i, x := range v.E {
		e := *env
		e.Idx = i
		if d := diffAll(src.Index(i), f.T, x, zs.Params(f, &e), fmt.Sprintf("%s[%d]", path, i), pars); d != "" {
			return d
		}
	}
	return ""
}

// Forget clears what an object that was used before may still hold in fields
// that v does not have because their condition is false.
func Forget(src reflect.Value, t *zs.Type, v *zs.Val) {
	if !t.Compound() {
		return
	}
	for i, f := range t.Fields {
		if t.K != zs.KStruct && i != v.Tag {
			continue
		}
		x := field(src, f.Name)
		e := v.E[i]
		switch {
		case e == nil && f.Opt && f.Cond == nil:
			continue
		case e == nil:
			x.Set(reflect.Zero(x.Type()))
			continue
		case f.Opt && x.IsNil():
			continue
		case f.Opt:
			x = x.Elem()
		}
		if f.Arr == nil {
			Forget(x, f.T, e)
			continue
		}
		for k := 0; k < x.Len() && k < len(e.E); k++ {
			Forget(x.Index(k), f.T, e.E[k])
		}
	}
}

func diffLeaf(src reflect.Value, t *zs.Type, v *zs.Val, path string) string {
	bad := func(got any) string { return fmt.Sprintf("%s: got %v, want %s", path, got, zs.Show(t, v)) }
	switch t.K {
	case zs.KBool:
		if src.Bool() != (v.I != 0) {
			return bad(src.Bool())
		}
	case zs.KF16, zs.KF32:
		want := uint32(v.I)
		if t.K == zs.KF16 {
			want = math.Float32bits(zs.F32FromF16(zs.F16FromF32(math.Float32frombits(want))))
		}
		if x, y := float32(src.Float()), math.Float32frombits(want); math.Float32bits(x) != want && !(x != x && y != y) {
			return bad(src.Float())
		}
	case zs.KF64:
		if x, y := src.Float(), math.Float64frombits(uint64(v.I)); math.Float64bits(x) != uint64(v.I) && !(x != x && y != y) {
			return bad(src.Float())
		}
	case zs.KString:
		if src.String() != string(v.S) {
			return bad(fmt.Sprintf("%q", src.String()))
		}
	case zs.KBytes, zs.KExtern:
		if src.IsNil() {
			return bad("nil")
		}
		buf := src.Elem().FieldByName("Buffer").Bytes()
		if t.K == zs.KBytes {
			if string(buf) != string(v.S) || src.Elem().FieldByName("ByteSize").Uint() != uint64(len(v.S)) {
				return bad(fmt.Sprintf("%x", buf))
			}
			return ""
		}
		n := src.Elem().FieldByName("BitSize").Uint()
		if n != v.N || len(buf) != int(v.N+7)/8 {
			return bad(fmt.Sprintf("%x/%d", buf, n))
		}
		for i := 0; i < int(n); i++ {
			if (buf[i/8]^v.S[i/8])>>uint(7-i%8)&1 != 0 {
				return bad(fmt.Sprintf("%x/%d", buf, n))
			}
		}
	default:
		var got int64
		switch src.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			got = src.Int()
		case reflect.Bool:
			if src.Bool() {
				got = 1
			}
		default:
			got = int64(src.Uint())
		}
		if got != v.I {
			return bad(got)
		}
	}
	return ""
}

var _ = strings.Title

// SetLeaf stores a leaf value, DiffLeaf compares one.
func SetLeaf(dst reflect.Value, t *zs.Type, v *zs.Val) { setLeaf(dst, t, v) }

func DiffLeaf(src reflect.Value, t *zs.Type, v *zs.Val, path string) string {
	return diffLeaf(src, t, v, path)
}
