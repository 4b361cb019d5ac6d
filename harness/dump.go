package main

import (
	"reflect"
	"sort"
	"unsafe"
)

// dumper computes a canonical fingerprint of everything reachable from a
// value: pointers and slice backing arrays are numbered in visiting order, so
// two objects have equal fingerprints iff they are isomorphic (same content,
// same sharing), whatever their addresses.  Nothing of the implementation's
// state is abstracted away, and no field name is needed.
type dumper struct {
	h    fnv
	ptrs map[ptrKey]int
	n    int
	caps bool // spare capacity and slice sharing are part of the state
	skip func(t reflect.Type, f reflect.StructField) bool

	collect bool        // first pass: find the memory of all slices
	mem     []region    // memory of slices, overlapping ones merged
	arena   map[int]int // region -> number in visiting order
}

type region struct{ lo, hi uintptr }

// slices that overlap in memory belong to one region
func (d *dumper) merge() {
	sort.Slice(d.mem, func(i, j int) bool { return d.mem[i].lo < d.mem[j].lo })
	var out []region
	for _, r := range d.mem {
		if n := len(out); n > 0 && r.lo < out[n-1].hi {
			if r.hi > out[n-1].hi {
				out[n-1].hi = r.hi
			}
			continue
		}
		out = append(out, r)
	}
	d.mem = out
	d.arena = map[int]int{}
}

func (d *dumper) slice(v reflect.Value) {
	size := uintptr(v.Cap()) * v.Type().Elem().Size()
	if size == 0 {
		return
	}
	p := v.Pointer()
	if d.collect {
		d.mem = append(d.mem, region{p, p + size})
		return
	}
	i := sort.Search(len(d.mem), func(i int) bool { return d.mem[i].hi > p })
	id, ok := d.arena[i]
	if !ok {
		id = len(d.arena) + 1
		d.arena[i] = id
	}
	d.h.u64(uint64(id))
	d.h.u64(uint64(p - d.mem[i].lo))
}

func fingerprint(caps bool, vs ...interface{}) uint64 {
	d := &dumper{h: newHash(), ptrs: map[ptrKey]int{}, caps: caps}
	if caps {
		c := &dumper{h: newHash(), ptrs: map[ptrKey]int{}, caps: caps, collect: true}
		for _, v := range vs {
			c.val(reflect.ValueOf(v), 0)
		}
		c.merge()
		d.mem, d.arena = c.mem, c.arena
	}
	for _, v := range vs {
		d.val(reflect.ValueOf(v), 0)
	}
	return uint64(d.h)
}

// fingerprintSkip leaves fields out.
func fingerprintSkip(skip func(t reflect.Type, f reflect.StructField) bool, vs ...interface{}) uint64 {
	d := &dumper{h: newHash(), ptrs: map[ptrKey]int{}, skip: skip}
	for _, v := range vs {
		d.val(reflect.ValueOf(v), 0)
	}
	return uint64(d.h)
}

type ptrKey struct {
	p uintptr
	t reflect.Type
}

func (d *dumper) ref(p uintptr, t reflect.Type) (seen bool) {
	if id, ok := d.ptrs[ptrKey{p, t}]; ok {
		d.h.u64(uint64(id))
		return true
	}
	d.n++
	d.ptrs[ptrKey{p, t}] = d.n
	d.h.u64(uint64(d.n))
	return false
}

func (d *dumper) val(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.h.b(0)
		return
	}
	if depth > 10000 {
		return
	}
	d.h.b(byte(v.Kind()))
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.h.b(1)
		} else {
			d.h.b(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.h.u64(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.h.u64(v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		d.h.u64(*(*uint64)(unsafe.Pointer(&f)))
	case reflect.String:
		d.h.str(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			d.h.b(0)
			return
		}
		if d.ref(v.Pointer(), v.Type()) {
			return
		}
		d.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.h.b(0)
			return
		}
		d.h.str(v.Elem().Type().String())
		d.val(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if d.skip != nil && d.skip(v.Type(), v.Type().Field(i)) {
				continue
			}
			d.val(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			d.h.b(0)
			return
		}
		d.h.b(1)
		d.h.u64(uint64(v.Len()))
		if d.caps {
			d.h.u64(uint64(v.Cap()))
			d.slice(v)
		}
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			d.h.b(0)
			return
		}
		d.h.u64(uint64(v.Len()))
		var hs []uint64
		for _, k := range v.MapKeys() {
			s := &dumper{h: newHash(), ptrs: map[ptrKey]int{}}
			s.val(k, depth+1)
			s.val(v.MapIndex(k), depth+1)
			hs = append(hs, uint64(s.h))
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		for _, h := range hs {
			d.h.u64(h)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.Pointer() == 0 {
			d.h.b(0)
		} else {
			d.h.b(1)
		}
	}
}
