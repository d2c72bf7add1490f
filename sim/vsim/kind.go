package vsim

import "reflect"

// kindLess orders keys of named basic types, and structs or arrays of them.
func kindLess(a, b any) (less, known bool) {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
		return false, false
	}
	c, ok := valCmp(va, vb)
	return c < 0, ok
}

func valCmp(a, b reflect.Value) (int, bool) {
	switch a.Kind() {
	case reflect.String:
		return cmp(a.String(), b.String()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp(a.Int(), b.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp(a.Uint(), b.Uint()), true
	case reflect.Float32, reflect.Float64:
		return cmp(a.Float(), b.Float()), true
	case reflect.Bool:
		x, y := 0, 0
		if a.Bool() {
			x = 1
		}
		if b.Bool() {
			y = 1
		}
		return x - y, true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			c, ok := valCmp(a.Field(i), b.Field(i))
			if !ok || c != 0 {
				return c, ok
			}
		}
		return 0, true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			c, ok := valCmp(a.Index(i), b.Index(i))
			if !ok || c != 0 {
				return c, ok
			}
		}
		return 0, true
	}
	return 0, false
}

func cmp[T string | int64 | uint64 | float64](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// OrderValues orders map keys, then lets the simulator rotate or reverse them.
func OrderValues(keys []reflect.Value) []reflect.Value {
	n := len(keys)
	if n < 2 {
		return keys
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			a, b := keys[j], keys[j-1]
			if a.Kind() == reflect.Interface {
				a, b = a.Elem(), b.Elem()
			}
			if a.Type() != b.Type() {
				break
			}
			c, ok := valCmp(a, b)
			if !ok || c >= 0 {
				break
			}
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	c := Choose("map order", 2*n)
	out := make([]reflect.Value, 0, n)
	rev := c >= n
	c %= n
	for i := 0; i < n; i++ {
		k := i
		if rev {
			k = n - 1 - i
		}
		out = append(out, keys[(k+c)%n])
	}
	return out
}
