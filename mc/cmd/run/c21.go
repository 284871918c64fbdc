package main

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"reflect"
	"strings"

	"mc/fam"
	"mc/rep"
	"zg/reg"
)

// C21: enums and bitmasks through their Go interface and on the wire.
func init() {
	checks["C21"] = func(rp *rep.R) {
		set, items := fam.C21(rp.Thorough())
		for _, it := range items {
			key := "table " + it.Text
			_, pan := guard(func() error {
				if it.Mask {
					maskOne(rp, key, it)
				} else {
					enumOne(rp, key, it)
				}
				return nil
			})
			if pan != "" {
				rp.Fail(key, it.Text+" panics: "+pan)
			}
			rp.Sample("%s", it.Text)
		}
		rp.Add("tables", len(items))
		codecCheck(rp, set, 60, []int{0, 3})
	}
}

func tabInt(v reflect.Value) int64 {
	if v.CanInt() {
		return v.Int()
	}
	return int64(v.Uint())
}

func tabSet(v reflect.Value, x int64) {
	if v.CanInt() {
		v.SetInt(x)
	} else {
		v.SetUint(uint64(x))
	}
}

func consts(rp *rep.R, key string, it *fam.TableItem) bool {
	l := reg.Vals[it.Name+"/consts"].([]any)
	for i, c := range l {
		rp.Count(1, 1, 1)
		if got := tabInt(reflect.ValueOf(c)); got != it.Items[i].Val {
			rp.Fail(key, fmt.Sprintf("%s: the value of %s is %d, must be %d", it.Text, it.Items[i].Name, got, it.Items[i].Val))
			return false
		}
		if n := reflect.TypeOf(c).Name(); n != it.GoName {
			rp.Fail(key, fmt.Sprintf("%s: %s is of type %s", it.Text, it.Items[i].Name, n))
			return false
		}
	}
	return true
}

func maskOne(rp *rep.R, key string, it *fam.TableItem) { consts(rp, key, it) }

type named string

func (n named) String() string { return string(n) }

// near yields every name one edit away.
func near(n string) []string {
	var r []string
	for i := range n {
		r = append(r, n[:i]+n[i+1:])
		if u := strings.ToUpper(n[i : i+1]); u != n[i:i+1] {
			r = append(r, n[:i]+u+n[i+1:])
		}
		if u := strings.ToLower(n[i : i+1]); u != n[i:i+1] {
			r = append(r, n[:i]+u+n[i+1:])
		}
	}
	for i := 0; i <= len(n); i++ {
		for _, c := range []string{"_", "A", "0", " "} {
			r = append(r, n[:i]+c+n[i:])
		}
	}
	return append(r, "", strings.ToUpper(n), strings.ToLower(n), "0", "1", "unknown(0)")
}

func enumOne(rp *rep.R, key string, it *fam.TableItem) {
	bad := func(f string, a ...any) { rp.Fail(key, it.Text+": "+fmt.Sprintf(f, a...)) }
	if !consts(rp, key, it) {
		return
	}
	var names []string
	byName := map[string]int64{}
	byVal := map[int64]string{}
	for _, x := range it.Items {
		names = append(names, x.Name)
		byName[x.Name] = x.Val
		byVal[x.Val] = x.Name
	}
	vals := reflect.ValueOf(reg.Vals[it.Name+"/values"])
	T := vals.Type().Elem()
	var got []int64
	for i := 0; i < vals.Len(); i++ {
		got = append(got, tabInt(vals.Index(i)))
	}
	var want []int64
	for _, x := range it.Items {
		want = append(want, x.Val)
	}
	if !reflect.DeepEqual(got, want) {
		bad("the values are %v, must be %v", got, want)
		return
	}
	strs := reg.Vals[it.Name+"/strings"].(func() []string)
	if l := strs(); !reflect.DeepEqual(l, names) {
		bad("the names are %q", l)
		return
	} else if l[0] = "changed"; strs()[0] != names[0] {
		bad("changing the list of names changes the enum")
		return
	}
	parse := reflect.ValueOf(reg.Vals[it.Name+"/parse"])
	tryName := func(n string) bool {
		rp.Count(1, 4, 1)
		w, known := byName[n]
		out := parse.Call([]reflect.Value{reflect.ValueOf(n)})
		if known != out[1].IsNil() || known && tabInt(out[0]) != w {
			bad("%sString(%q) is %v, %v", it.GoName, n, out[0], out[1])
			return false
		}
		for k, src := range []any{n, []byte(n), named(n)} {
			p := reflect.New(T)
			tabSet(p.Elem(), it.Items[0].Val)
			err := p.Interface().(sql.Scanner).Scan(src)
			exp := it.Items[0].Val
			if known {
				exp = w
			}
			if known != (err == nil) || tabInt(p.Elem()) != exp {
				bad("Scan(%T %q) gives %v, %v (source %d)", src, n, p.Elem(), err, k)
				return false
			}
		}
		return true
	}
	for _, n := range names {
		if !tryName(n) {
			return
		}
	}
	few := names
	if len(few) > 4 {
		few = few[:4]
	}
	for _, n := range few {
		for _, m := range near(n) {
			if !tryName(m) {
				return
			}
		}
	}
	// values and their neighbours
	tryVal := func(x int64) bool {
		p := reflect.New(T)
		tabSet(p.Elem(), x)
		if tabInt(p.Elem()) != x || T.Kind() != reflect.Int64 && T.Kind() != reflect.Uint64 && p.Elem().CanInt() && p.Elem().OverflowInt(x) {
			return true
		}
		rp.Count(1, 3, 1)
		n, known := byVal[x]
		s := p.Elem().Interface().(fmt.Stringer).String()
		if !known {
			n = fmt.Sprintf("unknown(%v)", p.Elem().Convert(kindOf(T)))
		}
		if s != n {
			bad("the name of %d is %q, must be %q", x, s, n)
			return false
		}
		v, err := p.Elem().Interface().(driver.Valuer).Value()
		if !known {
			return true
		}
		if err != nil || v != any(n) {
			bad("the SQL value of %d is %v, %v", x, v, err)
			return false
		}
		q := reflect.New(T)
		if err := q.Interface().(sql.Scanner).Scan(v); err != nil || tabInt(q.Elem()) != x {
			bad("scanning the SQL value of %d gives %v, %v", x, q.Elem(), err)
			return false
		}
		return true
	}
	for _, x := range want {
		for _, d := range []int64{0, -1, 1, 2, 16, 1 << 20} {
			if !tryVal(x+d) || !tryVal(x^d) {
				return
			}
		}
	}
	for _, src := range []any{nil, int64(it.Items[0].Val), 1.5, true} {
		p := reflect.New(T)
		last := it.Items[len(it.Items)-1].Val
		tabSet(p.Elem(), last)
		err := p.Interface().(sql.Scanner).Scan(src)
		rp.Count(1, 1, 1)
		if (err == nil) != (src == nil) || tabInt(p.Elem()) != last {
			bad("Scan(%v) gives %v, %v", src, p.Elem(), err)
			return
		}
	}
	rp.Distinct(it.Text)
}

func kindOf(t reflect.Type) reflect.Type {
	for _, x := range []any{int8(0), int16(0), int32(0), int64(0), uint8(0), uint16(0), uint32(0), uint64(0)} {
		if reflect.TypeOf(x).Kind() == t.Kind() {
			return reflect.TypeOf(x)
		}
	}
	panic(t)
}
