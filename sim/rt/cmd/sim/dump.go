//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// dumpTo writes a canonical text of v: maps sorted, nil and empty alike,
// pointers followed; what has no value of its own (channels, functions,
// locks) is left out.
func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		b.WriteString("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		if v.Bool() {
			b.WriteString("t")
		} else {
			b.WriteString("f")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Struct:
		if p := v.Type().PkgPath(); p == "sync" || p == "sync/atomic" || strings.HasSuffix(p, "/simsync") {
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.IsZero() || skipKind(f.Kind()) {
				continue
			}
			if (f.Kind() == reflect.Map || f.Kind() == reflect.Slice) && f.Len() == 0 {
				continue
			}
			b.WriteString(v.Type().Field(i).Name)
			b.WriteString(":")
			dumpTo(b, f, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Map:
		type kv struct {
			k string
			v reflect.Value
		}
		l := make([]kv, 0, v.Len())
		for it := v.MapRange(); it.Next(); {
			var kb strings.Builder
			dumpTo(&kb, it.Key(), depth+1)
			l = append(l, kv{kb.String(), it.Value()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		b.WriteString("[")
		for _, e := range l {
			b.WriteString(e.k)
			b.WriteString("=")
			dumpTo(b, e.v, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Slice, reflect.Array:
		b.WriteString("(")
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString(")")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpTo(b, v.Elem(), depth+1)
	}
}

func skipKind(k reflect.Kind) bool {
	return k == reflect.Chan || k == reflect.Func || k == reflect.UnsafePointer
}

func dumpVal(v reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, v, 0)
	return b.String()
}

func dumpAny(x interface{}) string { return dumpVal(reflect.ValueOf(x)) }

// typed adds the type's name, so that objects of different kinds differ.
func dumpTyped(x interface{}) string {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Pointer && !v.IsNil() {
		v = v.Elem()
	}
	return v.Type().Name() + dumpVal(v)
}

// hexDigest is order independent.
func hexDigest(m map[uint32]byte) string {
	var a, x uint64
	for k, v := range m {
		h := (uint64(k)<<8 | uint64(v)) * 0x9e3779b97f4a7c15
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
		a += h
		x ^= h * 31
	}
	return fmt.Sprintf("%d:%x:%x", len(m), a, x)
}

// scramble overwrites everything reachable from v that a caller could change:
// map entries, slice elements, struct fields behind pointers.
func scramble(v reflect.Value, depth int) {
	if depth > 30 {
		return
	}
	switch v.Kind() {
	case reflect.Map:
		if v.Len() == 0 {
			return
		}
		v = writable(v)
		var keys []reflect.Value
		for it := v.MapRange(); it.Next(); {
			keys = append(keys, it.Key())
			scramble(it.Value(), depth+1)
		}
		sort.Slice(keys, func(i, j int) bool { return dumpVal(keys[i]) < dumpVal(keys[j]) })
		for i, k := range keys {
			if i%2 == 0 {
				v.SetMapIndex(cloneVal(k), reflect.Value{})
			} else {
				v.SetMapIndex(cloneVal(k), reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			scramble(e, depth+1)
			if e.CanAddr() {
				w := reflect.NewAt(e.Type(), unsafe.Pointer(e.UnsafeAddr())).Elem()
				w.Set(reflect.Zero(e.Type()))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i), depth+1)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			e := v.Elem()
			scramble(e, depth+1)
			w := reflect.NewAt(e.Type(), unsafe.Pointer(e.UnsafeAddr())).Elem()
			w.Set(reflect.Zero(e.Type()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem(), depth+1)
		}
	}
}

// writable lifts the read-only flag reflect puts on unexported fields.
func writable(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	// a map value is one pointer: rebuild it
	p := v.UnsafePointer()
	n := reflect.New(v.Type()).Elem()
	*(*unsafe.Pointer)(unsafe.Pointer(n.UnsafeAddr())) = p
	return n
}

func cloneVal(k reflect.Value) reflect.Value {
	if k.CanInterface() {
		return k
	}
	n := reflect.New(k.Type()).Elem()
	switch k.Kind() {
	case reflect.String:
		n.SetString(k.String())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n.SetUint(k.Uint())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.SetInt(k.Int())
	}
	return n
}
