package sim

import (
	"encoding/json"
	"reflect"
)

// autoShrink proposes simpler bodies by reflection: projects and schedules have their own rules, slices lose
// elements, numbers go towards 0, flags towards false. A field tagged `shrink:"-"` is left alone.
func autoShrink(body any) []any {
	typ := reflect.TypeOf(body).Elem()
	fresh := func() reflect.Value {
		data, _ := json.Marshal(body)
		v := reflect.New(typ)
		json.Unmarshal(data, v.Interface())
		return v
	}
	var out []any
	// try applies f to the value at the given path of a fresh copy.
	type step struct {
		field int
		index int // of a slice; -1 none
	}
	at := func(root reflect.Value, path []step) reflect.Value {
		v := root.Elem()
		for _, s := range path {
			if s.field >= 0 {
				v = v.Field(s.field)
			}
			if s.index >= 0 {
				v = v.Index(s.index)
			}
			if v.Kind() == reflect.Pointer && !v.IsNil() && v.Type() != reflect.TypeOf((*Project)(nil)) {
				v = v.Elem()
			}
		}
		return v
	}
	try := func(path []step, f func(v reflect.Value)) {
		c := fresh()
		f(at(c, path))
		out = append(out, c.Interface())
	}
	var numbers []func()
	var walk func(v reflect.Value, path []step, depth int)
	walk = func(v reflect.Value, path []step, depth int) {
		path = append([]step(nil), path...)
		switch x := v.Interface().(type) {
		case *Project:
			if x != nil {
				for _, q := range shrinkProject(x) {
					try(path, func(v reflect.Value) { v.Set(reflect.ValueOf(q)) })
				}
			}
			return
		case Sched:
			numbers = append(numbers, func() {
				for _, s := range shrinkSched(x) {
					try(path, func(v reflect.Value) { v.Set(reflect.ValueOf(s)) })
				}
			})
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem(), path, depth)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() || f.Tag.Get("shrink") == "-" {
					continue
				}
				walk(v.Field(i), append(append([]step(nil), path...), step{i, -1}), depth+1)
			}
		case reflect.Slice:
			n := v.Len()
			if n == 0 || v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			cut := func(from, to int) {
				try(path, func(v reflect.Value) {
					w := reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, n), v.Slice(0, from))
					w = reflect.AppendSlice(w, v.Slice(to, n))
					v.Set(w)
				})
			}
			cut(0, n)
			if n > 3 {
				cut(0, n/2)
				cut(n/2, n)
			}
			if n > 1 {
				for i := 0; i < n; i++ {
					cut(i, i+1)
				}
			}
			for i := 0; i < n; i++ {
				p := append([]step(nil), path...)
				p = append(p, step{-1, i})
				walk(v.Index(i), p, depth+1)
			}
		case reflect.Bool:
			if v.Bool() {
				numbers = append(numbers, func() { try(path, func(v reflect.Value) { v.SetBool(false) }) })
			}
		case reflect.Int, reflect.Int64:
			k := v.Int()
			numbers = append(numbers, func() {
				for _, x := range []int64{0, k / 2, k - 1} {
					if x >= 0 && x < k && !(x == k-1 && k > 1000) {
						try(path, func(v reflect.Value) { v.SetInt(x) })
					}
				}
			})
		}
	}
	walk(reflect.ValueOf(body).Elem(), nil, 0)
	for _, f := range numbers {
		f()
	}
	return out
}
