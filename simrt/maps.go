package zzsimrt

import (
	"cmp"
	"fmt"
	"go/ast"
	"go/token"
	"iter"
	"reflect"
	"slices"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// RangeMap iterates over a map in an order decided by the order stream, over
// canonically sorted keys. Deleted keys are skipped and keys added while
// iterating are not visited, as the language allows.
func RangeMap[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			sortKeys(keys)
			permute(keys)
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// PermuteSlice applies an order-stream permutation (used by simulated services
// whose answer order is unspecified).
func PermuteSlice[T any](xs []T) { permute(xs) }

func permute[T any](keys []T) {
	s := S
	if s == nil || !s.cfg.PermuteMap || len(keys) < 2 {
		return
	}
	st := s.St[Order]
	switch st.Int(4) {
	case 0:
		return
	case 1:
		slices.Reverse(keys)
	case 2:
		n := st.Int(len(keys))
		rot := append(append([]T(nil), keys[n:]...), keys[:n]...)
		copy(keys, rot)
	case 3:
		x := uint64(st.Int(1 << 16))
		for i := len(keys) - 1; i > 0; i-- {
			x += 0x9e3779b97f4a7c15
			j := int(Mix(x) % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	s.res.MapPerms++
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return
	case []int:
		slices.Sort(ks)
		return
	}
	type kk struct {
		k K
		r reflect.Value
		p int
		e int
		s string
	}
	xs := make([]kk, len(keys))
	for i, k := range keys {
		xs[i] = kk{k: k, r: reflect.ValueOf(&k).Elem()}
		xs[i].p, xs[i].e, xs[i].s = canon(xs[i].r)
	}
	sort.SliceStable(xs, func(i, j int) bool {
		a, b := xs[i], xs[j]
		return cmp.Or(cmp.Compare(a.p, b.p), cmp.Compare(a.e, b.e), cmp.Compare(a.s, b.s)) < 0
	})
	for i := range xs {
		keys[i] = xs[i].k
	}
}

func canon(r reflect.Value) (p, e int, str string) {
	defer func() {
		if x := recover(); x != nil {
			str = "!" + r.Type().String()
		}
	}()
	switch r.Kind() {
	case reflect.String:
		return 0, 0, r.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(r.Int()), 0, ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return int(r.Uint() >> 1), int(r.Uint() & 1), ""
	case reflect.Bool:
		if r.Bool() {
			return 1, 0, ""
		}
		return 0, 0, ""
	}
	if (r.Kind() == reflect.Interface || r.Kind() == reflect.Pointer) && r.IsNil() {
		return -1, -1, ""
	}
	if !r.CanInterface() {
		return 0, 0, r.Type().String()
	}
	if r.Kind() == reflect.Struct {
		// methods may be declared on the pointer
		q := reflect.New(r.Type())
		q.Elem().Set(r)
		r = q
	}
	x := r.Interface()
	if in, ok := x.(ssa.Instruction); ok && in.Block() != nil && in.Parent() != nil {
		// instructions often share a position, or have none
		at := len(in.Block().Instrs)
		for i, o := range in.Block().Instrs {
			if o == in {
				at = i
			}
		}
		return int(in.Parent().Pos()), in.Block().Index<<20 + at, in.Parent().String() + " " + in.String()
	}
	if t, ok := x.(reflect.Type); ok {
		return 0, 0, t.String()
	}
	t := reflect.TypeOf(x).String()
	if n, ok := x.(ast.Node); ok {
		return int(n.Pos()), int(n.End()), t
	}
	if n, ok := x.(interface{ Pos() token.Pos }); ok {
		p = int(n.Pos())
		str = t
		if st, ok := x.(fmt.Stringer); ok {
			str = t + st.String()
		}
		return p, 0, str
	}
	if st, ok := x.(fmt.Stringer); ok {
		return 0, 0, t + st.String()
	}
	if r.Kind() == reflect.Pointer {
		return 0, 0, t
	}
	return 0, 0, t + fmt.Sprint(reflect.Indirect(r).Interface())
}

// MapKeys, MapValues and MapAll replace the functions of package maps.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(0, m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap(0, m) {
			if !yield(v) {
				return
			}
		}
	}
}

func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return RangeMap(0, m) }
