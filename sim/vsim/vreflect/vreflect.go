// Package vreflect orders reflective map iteration.
package vreflect

import (
	"reflect"

	"spagosim/vsim"
)

// Iter stands in for reflect.MapIter.
type Iter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// MapRange is v.MapRange().
func MapRange(v reflect.Value) *Iter { return &Iter{m: v, keys: MapKeys(v), i: -1} }

// MapKeys is v.MapKeys().
func MapKeys(v reflect.Value) []reflect.Value { return vsim.OrderValues(v.MapKeys()) }

func (it *Iter) Next() bool {
	it.i++
	return it.i < len(it.keys)
}
func (it *Iter) Key() reflect.Value   { return it.keys[it.i] }
func (it *Iter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
func (it *Iter) Reset(v reflect.Value) {
	*it = *MapRange(v)
}
