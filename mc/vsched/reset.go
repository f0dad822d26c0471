package vsched

import (
	"reflect"
	"runtime"
	"sort"
)

var resets []func()

// OnStart registers a function that gives the variables of a package their
// initial values; it is called at the start of each execution.
func OnStart(f func()) { resets = append(resets, f) }

func yieldReal() { runtime.Gosched() }

// KeyOrder gives the order in which ranges over maps of n keys visit them, as
// positions in ascending order; nil is ascending, or another order as a
// deviation.
var KeyOrder func(n int) []int

func keyOrder(n int) []int {
	if KeyOrder != nil {
		return KeyOrder(n)
	}
	s := active
	if n < 2 || s == nil || curMode != scheduled || s.killing || s.ch.Left() <= 0 {
		return nil
	}
	alts := 3 // ascending, descending, the last one first
	if n == 2 {
		alts = 2
	}
	o := make([]int, n)
	switch s.ch.Pick(alts, 1) {
	case 0:
		return nil
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2:
		for i := range o {
			o[i] = (i + n - 1) % n
		}
	}
	return o
}

// Keys returns the keys of a map as a slice, in an order that is ascending or
// chosen, so that executions can be repeated.
func Keys(m any) any {
	v := reflect.ValueOf(m)
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	out := reflect.MakeSlice(reflect.SliceOf(v.Type().Key()), len(ks), len(ks))
	order := keyOrder(len(ks))
	for i, k := range ks {
		if order != nil {
			k = ks[order[i]]
		}
		out.Index(i).Set(k)
	}
	return out.Interface()
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if less(a.Field(i), b.Field(i)) {
				return true
			}
			if less(b.Field(i), a.Field(i)) {
				return false
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if less(a.Index(i), b.Index(i)) {
				return true
			}
			if less(b.Index(i), a.Index(i)) {
				return false
			}
		}
	}
	return false
}
