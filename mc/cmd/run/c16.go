package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sync"

	"mc/ex"
	"mc/fam"
	"mc/rep"
	"mc/zs"
	"zg/reg"
)

// C16: every expression tree up to a depth, where its value can be seen.
func init() {
	checks["C16"] = func(rp *rep.R) {
		set, items, typed := fam.C16(rp.Thorough())
		var wg sync.WaitGroup
		ch := make(chan *fam.ExItem, 100)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for it := range ch {
					exOne(rp, it)
				}
			}()
		}
		for _, it := range items {
			ch <- it
		}
		close(ch)
		wg.Wait()
		rp.Add("expressions", len(items)+len(typed))
		for _, it := range typed {
			exTyped(rp, it)
		}
		codecCheck(rp, set, 60, []int{0, 3})
	}
}

func goVal(v reflect.Value) (ex.Val, error) {
	switch v.Kind() {
	case reflect.Bool:
		return ex.B(v.Bool()), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return ex.I(v.Int()), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return ex.U(v.Uint()), nil
	case reflect.Float32, reflect.Float64:
		return ex.Fl(v.Float()), nil
	case reflect.String:
		return ex.S(v.String()), nil
	}
	return ex.Val{}, fmt.Errorf("result of kind %v", v.Kind())
}

func same(a, b ex.Val) bool {
	if a.T != b.T {
		return false
	}
	switch a.T {
	case ex.TI:
		return a.I.Cmp(b.I) == 0
	case ex.TB:
		return a.B == b.B
	case ex.TF:
		// the language leaves open with how many bits of a float32 are computed
		return a.F == b.F || float32(a.F) == float32(b.F)
	}
	return a.S == b.S
}

func exOne(rp *rep.R, it *fam.ExItem) {
	key := "expression " + it.Text
	where := it.Val
	if it.Root != "" {
		where = it.Root + "." + it.Fn
	}
	if it.Val != "" {
		want, ok := it.N.Eval(func(l *ex.Leaf) ex.Val { return l.Vals[0] })
		if !ok {
			panic("undefined constant " + it.Text)
		}
		v := reflect.ValueOf(reg.Vals[it.Val])
		rp.Count(1, 1, 1)
		if it.Enum {
			if v.Len() != 2 {
				rp.Fail(key, fmt.Sprintf("%s: enum has %d values", where, v.Len()))
				return
			}
			got, err := goVal(v.Index(0))
			next, err2 := goVal(v.Index(1))
			if err != nil || err2 != nil || !same(got, want) || !same(next, ex.Val{T: ex.TI, I: new(big.Int).Add(want.I, big.NewInt(1))}) {
				rp.Fail(key, fmt.Sprintf("%s: enum value %s is %v followed by %v, must be %v and the next\nschemas in %s", where, it.Text, got, next, want, schemaDir()))
			}
			return
		}
		got, err := goVal(v)
		if err != nil || !same(got, want) {
			rp.Fail(key, fmt.Sprintf("%s: constant %s is %v %v, must be %v\nschemas in %s", where, it.Text, got, err, want, schemaDir()))
		}
		return
	}
	o := reflect.ValueOf(reg.New[it.Root]())
	m := o.MethodByName(it.Fn)
	if !m.IsValid() {
		rp.Fail(key, fmt.Sprintf("%s: no such function", where))
		return
	}
	fam.Envs(it.N, func(env map[*ex.Leaf]ex.Val) bool {
		want, ok := it.N.Eval(func(l *ex.Leaf) ex.Val { return env[l] })
		if !ok {
			rp.Add("evaluations_left_open_by_the_language", 1)
			return true
		}
		shown := ""
		isVar := false
		for l := range env {
			isVar = isVar || l.Var
		}
		if isVar {
			exReset(o.Elem())
		}
		for l, v := range env {
			if l.Var {
				exSet(o.Elem(), l, v)
				shown += fmt.Sprintf(" %s=%v", l.Text, v)
			}
		}
		var got ex.Val
		err, pan := guard(func() error {
			var e error
			got, e = goVal(m.Call(nil)[0])
			return e
		})
		rp.Count(1, 1, 1)
		ok = pan == "" && err == nil && same(got, want)
		if it.N.Wide() {
			ok = ok && got.F == want.F
		}
		if !ok && pan == "" && err == nil {
			w32, _ := it.N.Eval32(func(l *ex.Leaf) ex.Val { return env[l] })
			ok = w32.T == got.T && same(got, w32) && (!it.N.Wide() || got.F == w32.F)
		}
		if !ok {
			rp.Fail(key, fmt.Sprintf("%s: %s with%s is %v %v %s, must be %v\nschemas in %s", where, it.Text, shown, got, err, pan, want, schemaDir()))
			return false
		}
		if it.N.T != ex.TB {
			rp.Distinct(it.Text + got.String())
		}
		return true
	})
	if len(it.Text) > 24 {
		rp.Sample("%s: %s", where, it.Text)
	}
}

func schemaDir() string { return schemaOf(&fam.Root{Pkg: ""})[:len(schemaOf(&fam.Root{Pkg: ""}))-4] }

func exReset(o reflect.Value) {
	o.Set(reflect.Zero(o.Type()))
	f := func(n string) reflect.Value { return o.FieldByName(n) }
	mkSlice := func(v reflect.Value, n int) { v.Set(reflect.MakeSlice(v.Type(), n, n)) }
	mkSlice(f("Arr"), 2)
	mkSlice(f("Fix"), 3)
	mkSlice(f("Ins"), 2)
	mkSlice(f("N1").FieldByName("Arr"), 1)
	f("Ch").FieldByName("Sel").SetUint(2)
	f("En").SetInt(-2)
	f("En2").SetInt(-2)
	f("En3").SetInt(-2)
}

// exSet stores the value of an atom in the object.
func exSet(o reflect.Value, l *ex.Leaf, v ex.Val) {
	num := func(f reflect.Value, x *big.Int) {
		switch f.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(x.Int64())
		default:
			f.SetUint(x.Uint64())
		}
	}
	f := func(n string) reflect.Value {
		x := o.FieldByName(n)
		if !x.IsValid() {
			panic("no field " + n)
		}
		return x
	}
	n1 := f("N1")
	switch l.Key {
	case "n1.q":
		num(n1.FieldByName("Q"), v.I)
	case "n1.t.r":
		num(n1.FieldByName("T").FieldByName("R"), v.I)
	case "arr[1]":
		num(f("Arr").Index(1), v.I)
	case "fix[2]":
		num(f("Fix").Index(2), v.I)
	case "ins[1].q":
		num(f("Ins").Index(1).FieldByName("Q"), v.I)
	case "n1.arr[0]":
		num(n1.FieldByName("Arr").Index(0), v.I)
	case "lengthof(len0)":
		s := f("Len0")
		s.Set(reflect.MakeSlice(s.Type(), int(v.I.Int64()), int(v.I.Int64())))
	case "lengthof(fix)", "ch.hh()":
	case "valueof(en3)":
		num(f("En3"), v.I)
	case "valueof(ma3)":
		num(f("Ma3"), v.I)
	case "fn0()":
		num(f("Aa"), new(big.Int).Quo(v.I, big.NewInt(100)))
	case "n1.gg()":
		num(n1.FieldByName("Qq"), new(big.Int).Quo(v.I, big.NewInt(2)))
	case "numbits(nb)":
		num(f("Nb"), map[int64]*big.Int{0: big.NewInt(0), 1: big.NewInt(2), 3: big.NewInt(5), 8: big.NewInt(200)}[v.I.Int64()])
	case "o":
		p := reflect.New(f("O").Type().Elem())
		num(p.Elem(), v.I)
		f("O").Set(p)
	case "isset(ma, Mask.W)":
		if v.B {
			f("Ma").SetUint(f("Ma").Uint() | 2)
		}
	case "(en == Color.BLUE)":
		if v.B {
			f("En").SetInt(-1)
		}
	case "(Mask.R == ma2)":
		if v.B {
			f("Ma2").SetUint(1)
		}
	case "(en2 != Color.RED)":
		if !v.B {
			f("En2").SetInt(3)
		}
	case "fb()":
		f("P2").SetBool(v.B)
	case "n1.bb":
		n1.FieldByName("Bb").SetBool(v.B)
	default:
		x := o.FieldByName(string(l.Key[0]-32) + l.Key[1:])
		if !x.IsValid() {
			panic("no field " + l.Key)
		}
		switch v.T {
		case ex.TB:
			x.SetBool(v.B)
		case ex.TF:
			x.SetFloat(v.F)
		default:
			num(x, v.I)
		}
	}
}

var _ = zs.Int

// exTyped: an expression on enums, bitmasks or strings, for every assignment of
// its variables.
func exTyped(rp *rep.R, it *fam.TypedEx) {
	key := "expression " + it.Text
	value := func(v reflect.Value) any {
		switch v.Kind() {
		case reflect.Bool:
			return v.Bool()
		case reflect.String:
			return v.String()
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return v.Int()
		}
		return v.Uint()
	}
	if it.Val != "" {
		rp.Count(1, 1, 1)
		if got, want := value(reflect.ValueOf(reg.Vals[it.Val])), it.Eval(nil); got != want {
			rp.Fail(key, fmt.Sprintf("constant %s = %s is %#v, must be %#v\nschemas in %s", it.Val, it.Text, got, want, schemaDir()))
		}
		return
	}
	o := reflect.ValueOf(reg.New[it.Root]())
	m := o.MethodByName(it.Fn)
	if !m.IsValid() {
		rp.Fail(key, fmt.Sprintf("%s.%s: no such function", it.Root, it.Fn))
		return
	}
	e := o.Elem()
	f := func(path ...string) reflect.Value {
		v := e
		for _, p := range path {
			v = v.FieldByName(p)
		}
		return v
	}
	for n, l := range map[string]int{"Ce": 2, "Ms": 1, "Cs": 1} {
		f(n).Set(reflect.MakeSlice(f(n).Type(), l, l))
	}
	where := map[string]reflect.Value{"p": f("P"), "en": f("En"), "eb": f("Eb"), "n1.c": f("N1", "C"), "n2.c": f("N2", "C"), "ce[1]": f("Ce").Index(1), "fe()": f("Fex"), "se": f("Se"), "np.in.c": f("Np", "In", "C"),
		"ma": f("Ma"), "mb": f("Mb"), "n2.m": f("N2", "M"), "ms[0]": f("Ms").Index(0), "fm()": f("Fmx"), "sm": f("Sm"), "nm": f("Nm"), "nn": f("Nn"), "wm": f("Wm"),
		"s1": f("S1"), "s2": f("S2"), "n2.s": f("N2", "S"), "cs[0]": f("Cs").Index(0), "fs()": f("Fsx"), "ss": f("Ss")}
	env := fam.TEnv{}
	var vars []string
	for _, v := range it.Vars {
		if _, ok := env[v]; !ok {
			env[v] = nil
			vars = append(vars, v)
		}
	}
	failed := false
	var walk func(i int)
	walk = func(i int) {
		if failed {
			return
		}
		if i < len(vars) {
			for _, v := range fam.TVars[vars[i]] {
				env[vars[i]] = v
				w := where[vars[i]]
				switch v := v.(type) {
				case bool:
					w.SetBool(v)
				case int64:
					w.SetInt(v)
				case uint64:
					w.SetUint(v)
				case string:
					w.SetString(v)
				}
				walk(i + 1)
			}
			return
		}
		var got any
		_, pan := guard(func() error { got = value(m.Call(nil)[0]); return nil })
		want := it.Eval(env)
		rp.Count(1, 1, 1)
		rp.Distinct(fmt.Sprint(it.Text, got))
		if pan != "" || got != want {
			failed = true
			rp.Fail(key, fmt.Sprintf("%s.%s: %s with %v is %#v %s, must be %#v\nschemas in %s", it.Root, it.Fn, it.Text, env, got, pan, want, schemaDir()))
		}
	}
	walk(0)
}
