package simrt

import (
	"fmt"
	"reflect"
)

// MapKeys is reflect.Value.MapKeys in simulated order.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	names := make([]string, len(keys))
	for i := range keys {
		names[i] = fmt.Sprintf("%v\x00%v", keys[i].Type(), keys[i])
	}
	Order(names, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// MapIter replaces reflect.MapIter.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	pos  int
}

// MapRange is reflect.Value.MapRange in simulated order.
func MapRange(v reflect.Value) *MapIter {
	return &MapIter{m: v, keys: MapKeys(v), pos: -1}
}

func (i *MapIter) Next() bool {
	i.pos++
	return i.pos < len(i.keys)
}

func (i *MapIter) Key() reflect.Value   { return i.keys[i.pos] }
func (i *MapIter) Value() reflect.Value { return i.m.MapIndex(i.keys[i.pos]) }
