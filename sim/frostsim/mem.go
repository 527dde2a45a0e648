package main

import (
	"bytes"
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// memWalk collects the memory reachable from an object.
type memWalk struct {
	seen   map[memKey]bool
	objs   map[uintptr]bool
	blocks [][]byte
	// visit, if set, is called with every addressable value.
	visit func(v reflect.Value)
	// timers says whether to look into the functions of timers.
	timers bool
	// exact leaves out what only closures and unsafe pointers refer to.
	exact bool
}

type memKey struct {
	p uintptr
	t reflect.Type
	n int
}

var timerType = reflect.TypeOf(time.Timer{})

// reach returns the contents of everything reachable from p, a pointer.
func reach(p any) [][]byte {
	w := &memWalk{seen: map[memKey]bool{}, objs: map[uintptr]bool{}}
	w.walk(reflect.ValueOf(p))
	return w.blocks
}

// reachTimers is reach including what the functions of timers refer to.
func reachTimers(p any) [][]byte {
	w := &memWalk{seen: map[memKey]bool{}, objs: map[uintptr]bool{}, timers: true}
	w.walk(reflect.ValueOf(p))
	return w.blocks
}

func (w *memWalk) block(p unsafe.Pointer, n uintptr) {
	if n > 0 && p != nil {
		w.blocks = append(w.blocks, unsafe.Slice((*byte)(p), n))
	}
}

func (w *memWalk) first(p uintptr, t reflect.Type, n int) bool {
	k := memKey{p, t, n}
	if w.seen[k] {
		return false
	}
	w.seen[k] = true
	w.objs[p] = true
	return true
}

// own returns v without the restrictions of unexported fields.
func own(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func (w *memWalk) walk(v reflect.Value) {
	v = own(v)
	if w.visit != nil && v.CanAddr() {
		w.visit(v)
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || !w.first(v.Pointer(), v.Type(), 1) {
			return
		}
		if v.Type().Elem() == timerType {
			// the function it calls
			if w.timers {
				if a := reflect.ValueOf(runtime.SimTimerArg(v.UnsafePointer())); a.Kind() == reflect.Func {
					w.walk(a)
				}
			}
			return
		}
		w.block(v.UnsafePointer(), v.Type().Elem().Size())
		w.walk(v.Elem())
	case reflect.UnsafePointer:
		if v.Pointer() != 0 {
			w.conservative(v.Pointer(), 4)
		}
	case reflect.Func:
		if !v.IsNil() {
			// a func value points to a closure object
			c := reflect.New(v.Type())
			c.Elem().Set(v)
			w.conservative(*(*uintptr)(c.UnsafePointer()), 4)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			w.walk(e)
		default:
			w.copied(e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	case reflect.Array:
		if plain(v.Type().Elem()) && w.visit == nil {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		// what is in the unused capacity is still there
		v = v.Slice3(0, v.Cap(), v.Cap())
		if !w.first(v.Pointer(), v.Type(), v.Cap()) {
			return
		}
		w.block(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size())
		if plain(v.Type().Elem()) && w.visit == nil {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.String:
		if s := v.String(); len(s) > 0 && w.first(uintptr(unsafe.Pointer(unsafe.StringData(s))), v.Type(), len(s)) {
			w.block(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)))
		}
	case reflect.Map:
		if v.IsNil() || !w.first(v.Pointer(), v.Type(), 1) {
			return
		}
		for it := v.MapRange(); it.Next(); {
			w.copied(it.Key())
			w.copied(it.Value())
		}
	}
}

// copied walks a value that has no address, in a copy.
func (w *memWalk) copied(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Func, reflect.Interface, reflect.Slice, reflect.String:
		if w.visit == nil || v.Kind() == reflect.Pointer {
			w.walk(v)
			return
		}
	}
	c := reflect.New(v.Type())
	c.Elem().Set(v)
	w.block(c.UnsafePointer(), v.Type().Size())
	visit := w.visit
	w.visit = nil
	w.walk(c.Elem())
	w.visit = visit
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return true
	case reflect.Array:
		return plain(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

// conservative scans the heap object at p and what its words point to.
func (w *memWalk) conservative(p uintptr, depth int) {
	if w.exact {
		return
	}
	base, size := runtime.SimObject(p)
	if base == 0 || size == 0 || size > 1<<16 || w.objs[base] {
		return
	}
	w.objs[base] = true
	w.block(unsafe.Pointer(base), size)
	if depth == 0 {
		return
	}
	for i := uintptr(0); i+8 <= size; i += 8 {
		w.conservative(*(*uintptr)(unsafe.Pointer(base + i)), depth-1)
	}
}

// contains returns whether b occurs in the blocks.
func containsSecret(blocks [][]byte, b []byte) bool {
	for _, x := range blocks {
		if len(x) >= len(b) && bytes.Contains(x, b) {
			return true
		}
	}
	return false
}
