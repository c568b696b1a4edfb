//go:build go1.21

package main

import (
	"reflect"
	"strings"
)

// find looks for a part of a private structure by type and name, wherever in it
// (breadth first, through embedded and nested structures, pointers and
// interfaces) it is: a field of one of the names is preferred, then any field of
// the type whose name contains one of them, then the only field of the type.
func find[T any](root any, names ...string) *T {
	return look[T](root, false, names)
}

// findExact is find for fields of exactly that name
func findExact[T any](root any, names ...string) *T {
	return look[T](root, true, names)
}

func look[T any](root any, exact bool, names []string) *T {
	want := reflect.TypeOf((*T)(nil)).Elem()
	type cand struct {
		name string
		v    reflect.Value
	}
	var cands []cand
	seen := map[uintptr]bool{}
	level := []reflect.Value{reflect.ValueOf(root)}
	for depth := 0; depth < 6 && len(level) > 0; depth++ {
		var next []reflect.Value
		for _, v := range level {
			for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
				if v.IsNil() {
					break
				}
				if v.Kind() == reflect.Pointer {
					if seen[v.Pointer()] {
						v = reflect.Value{}
						break
					}
					seen[v.Pointer()] = true
				}
				v = v.Elem()
			}
			if !v.IsValid() || v.Kind() != reflect.Struct {
				continue
			}
			if !v.CanAddr() {
				c := reflect.New(v.Type())
				c.Elem().Set(v)
				v = c.Elem()
			}
			for i := 0; i < v.NumField(); i++ {
				f := reflect.NewAt(v.Field(i).Type(), v.Field(i).Addr().UnsafePointer()).Elem()
				if f.Type() == want {
					cands = append(cands, cand{v.Type().Field(i).Name, f})
				}
				next = append(next, f)
			}
		}
		level = next
	}
	get := func(ok func(string) bool) *T {
		for _, c := range cands {
			if ok(c.name) {
				return c.v.Addr().Interface().(*T)
			}
		}
		return nil
	}
	for _, n := range names {
		if p := get(func(s string) bool { return s == n }); p != nil {
			return p
		}
	}
	if exact {
		return nil
	}
	for _, n := range names {
		if p := get(func(s string) bool { return strings.Contains(strings.ToLower(s), strings.ToLower(n)) }); p != nil {
			return p
		}
	}
	if len(cands) == 1 {
		return cands[0].v.Addr().Interface().(*T)
	}
	return nil
}
