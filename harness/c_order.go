package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math"
	"reflect"
	"sort"
	"strings"

	"../../repo/src/collection"
	"../../repo/src/util"
)

func sgn(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------------------
// slices of ordered elements

type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// family: everything the library offers for slices of T
type family[T ordered] struct {
	name  string
	cmp   func(a, b []T) int
	eq    func(a, b []T) bool
	wrapC func(a []T) collection.IComparable
	wrapH func(a []T) collection.IHashable
	alpha []T // boundary values, ascending
}

// refCmp is the reference order; nil against empty is left open (ok=false).
func refCmp[T ordered](a, b []T) (r int, ok bool) {
	if (a == nil) != (b == nil) && len(a) == len(b) {
		return 0, false
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1, true
		} else if a[i] > b[i] {
			return 1, true
		}
	}
	return sgn(len(a) - len(b)), true
}

func (f *family[T]) operands(maxLen int) [][]T {
	ops := [][]T{nil, {}}
	level := [][]T{{}}
	for n := 1; n <= maxLen; n++ {
		var next [][]T
		al := f.alpha
		if n >= 3 {
			al = []T{f.alpha[0], f.alpha[len(f.alpha)/2], f.alpha[len(f.alpha)-1]}
		}
		for _, p := range level {
			for _, x := range al {
				next = append(next, append(append([]T{}, p...), x))
			}
		}
		ops = append(ops, next...)
		level = next
		if n == 2 {
			// continue from a reduced prefix set
			level = nil
			al := []T{f.alpha[0], f.alpha[len(f.alpha)/2], f.alpha[len(f.alpha)-1]}
			for _, x := range al {
				for _, y := range al {
					level = append(level, []T{x, y})
				}
			}
		}
	}
	return ops
}

func (f *family[T]) pair(a, b []T) error {
	ca, cb := append([]T(nil), a...), append([]T(nil), b...)
	r, ok := refCmp(a, b)
	check := func(what string, cmp func() int, rev func() int, eq func() bool, qe func() bool) error {
		c, d := sgn(cmp()), sgn(rev())
		if c != -d {
			return bad("antisymmetric", "%s %s: compare(%v,%v)=%d but compare(%v,%v)=%d", f.name, what, a, b, c, b, a, d)
		}
		if eq() != (c == 0) || qe() != (c == 0) {
			return bad("equal", "%s %s: compare(%#v,%#v)=%d but equal is %v/%v", f.name, what, a, b, c, eq(), qe())
		}
		if ok && c != r {
			return bad("order", "%s %s: compare(%v,%v)=%d, expected %d", f.name, what, a, b, c, r)
		}
		return nil
	}
	if f.cmp != nil {
		if err := check("function", func() int { return f.cmp(a, b) }, func() int { return f.cmp(b, a) },
			func() bool { return f.eq(a, b) }, func() bool { return f.eq(b, a) }); err != nil {
			return err
		}
	}
	if f.wrapC != nil {
		x, y := f.wrapC(a), f.wrapC(b)
		if err := check("comparable", func() int { return x.Compare(y) }, func() int { return y.Compare(x) },
			func() bool { return x.Equal(y) }, func() bool { return y.Equal(x) }); err != nil {
			return err
		}
	}
	if f.wrapH != nil {
		x, y := f.wrapH(a), f.wrapH(b)
		e, g := x.Equal(y), y.Equal(x)
		if e != g || (ok && e != (r == 0)) {
			return bad("equal", "%s hashable: equal(%v,%v)=%v, the other way %v", f.name, a, b, e, g)
		}
	}
	if !eqS(a, ca) || !eqS(b, cb) {
		return bad("modified", "%s: comparing modified an operand", f.name)
	}
	return nil
}

func eqS[T ordered](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (f *family[T]) order(w *W) {
	maxLen := 3
	if !w.Quick() {
		maxLen = 4
	}
	ops := f.operands(maxLen)
	for i, a := range ops {
		for j, b := range ops {
			a, b, i, j := a, b, i, j
			w.Case("order-"+f.name, func() string { return fmt.Sprintf("%d %d: %#v %#v", i, j, a, b) }, func() error {
				r, ok := refCmp(a, b)
				w.Outcome(f.name, r, ok, len(a), len(b))
				w.transitions++
				return f.pair(a, b)
			})
		}
	}
	// long operands: they differ at one position only (with the tails ordered the other way), or in length only,
	// and lie next to each other in one array with different alignments
	N := 40
	if !w.Quick() {
		N = 140
	}
	for n := 0; n <= N; n++ {
		for i := 0; i <= n; i++ {
			n, i := n, i
			w.Case("long-"+f.name, func() string { return fmt.Sprintf("len %d differ at %d", n, i) }, func() error {
				lo, hi, mid := f.alpha[0], f.alpha[len(f.alpha)-1], f.alpha[len(f.alpha)/2]
				back := make([]T, 2*n+8)
				for k := range back {
					back[k] = hi
				}
				a, b := back[1:1+n:1+n], back[n+3:2*n+3]
				fill := func() {
					for k := 0; k < n; k++ {
						a[k], b[k] = mid, mid
					}
				}
				fill()
				if err := f.pair(a[:i], b); err != nil {
					return err
				}
				if err := f.pair(a, b); err != nil {
					return err
				}
				if i == n {
					return nil
				}
				for _, p := range [][2]T{{lo, hi}, {mid, hi}, {lo, mid}} {
					fill()
					a[i], b[i] = p[0], p[1]
					if err := f.pair(a, b); err != nil {
						return err
					}
					for k := i + 1; k < n; k++ {
						a[k], b[k] = hi, lo
					}
					if err := f.pair(a, b); err != nil {
						return err
					}
				}
				w.transitions += 8
				// one array, overlapping operands
				return f.pair(a, a[:i])
			})
		}
	}
	// every adjacent value at every position of a short slice (word-wise and sign handling)
	if f.name == "byte" || f.name == "int8" || f.name == "hbyte" {
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				x, y := x, y
				w.Case("values-"+f.name, func() string { return fmt.Sprintf("%d %d", x, y) }, func() error {
					w.transitions += 2
					if err := f.pair([]T{T(x)}, []T{T(y)}); err != nil {
						return err
					}
					z := f.alpha[0]
					return f.pair([]T{z, T(x), f.alpha[1]}, []T{z, T(y), z})
				})
			}
		}
	}
}

// hashes: equal slices hash equally wherever they lie, under every function
func (f *family[T]) hashes(w *W) {
	if f.wrapH == nil {
		return
	}
	fns := hashFuncs()
	ops := f.operands(3)
	for n := 4; n <= 33; n++ {
		s := make([]T, n)
		for i := range s {
			s[i] = f.alpha[(i*7+n)%len(f.alpha)]
		}
		ops = append(ops, s)
	}
	for i, a := range ops {
		a, i := a, i
		w.Case("place-"+f.name, func() string { return fmt.Sprintf("%d: %#v", i, a) }, func() error {
			var first []uint32
			for _, off := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
				for _, fillv := range []T{f.alpha[0], f.alpha[len(f.alpha)-1], 1} {
					for _, spare := range []int{0, 1, 5} {
						back := make([]T, off+len(a)+8)
						for k := range back {
							back[k] = fillv
						}
						s := back[off : off+len(a) : off+len(a)+spare]
						copy(s, a)
						keep := append([]T{}, back...)
						h := f.wrapH(s)
						for k, fn := range fns {
							got := h.HashUint32(fn.f)
							w.transitions++
							if len(first) <= k {
								first = append(first, got)
							} else if first[k] != got {
								return bad("placement", "%s hash of %v under %s depends on what surrounds it: %08x or %08x", f.name, a, fn.name, first[k], got)
							}
						}
						if !eqS(back, keep) {
							return bad("modified", "%s: hashing %v modified memory", f.name, a)
						}
					}
				}
			}
			if a == nil || len(a) == 0 {
				// nil and empty: if equal then the same hash
				x, y := f.wrapH(nil), f.wrapH([]T{})
				for _, fn := range fns {
					if x.HashUint32(fn.f) != f.wrapH(nil).HashUint32(fn.f) {
						return bad("nilhash", "%s: two nil slices hash differently", f.name)
					}
				}
				if x.Equal(y) {
					for _, fn := range fns {
						if x.HashUint32(fn.f) != y.HashUint32(fn.f) {
							return bad("nilhash", "%s: nil and empty are equal but hash differently", f.name)
						}
					}
				}
			}
			w.Outcome(f.name, fmt.Sprint(a))
			return nil
		})
	}
	// no systematic collisions between slices of one length
	w.Case("spread-"+f.name, func() string { return "" }, func() error {
		for _, fn := range fns[:3] {
			for n := 1; n <= 9; n++ {
				seen := map[uint32]bool{}
				total := 0
				for pos := 0; pos < n; pos++ {
					for _, x := range f.alpha {
						s := make([]T, n)
						for k := range s {
							s[k] = 3
						}
						if x == 3 {
							continue
						}
						s[pos] = x
						seen[f.wrapH(s).HashUint32(fn.f)] = true
						total++
					}
				}
				w.transitions += int64(total)
				if len(seen) < total-2 {
					return bad("spread", "%s: %d slices of length %d have only %d hashes", f.name, total, n, len(seen))
				}
			}
		}
		return nil
	})
}

type hashFunc struct {
	name string
	f    func([]byte) uint32
}

// murmur3 is the published algorithm (x86, 32 bit), written byte by byte.
func murmur3(seed uint32, b []byte) uint32 {
	rotl := func(x uint32, r uint) uint32 { return x<<r | x>>(32-r) }
	h := seed
	n := len(b) / 4
	for i := 0; i < n; i++ {
		k := binary.LittleEndian.Uint32(b[4*i:])
		k *= 0xcc9e2d51
		k = rotl(k, 15)
		k *= 0x1b873593
		h ^= k
		h = rotl(h, 13)
		h = h*5 + 0xe6546b64
	}
	var k uint32
	t := b[4*n:]
	for i := len(t) - 1; i >= 0; i-- {
		k = k<<8 | uint32(t[i])
	}
	if len(t) > 0 {
		k *= 0xcc9e2d51
		k = rotl(k, 15)
		k *= 0x1b873593
		h ^= k
	}
	h ^= uint32(len(b))
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	h ^= h >> 16
	return h
}

func hashFuncs() []hashFunc {
	return []hashFunc{
		{"murmur seed 0", collection.MurmurSeed(0).Hash},
		{"murmur seed 1", collection.MurmurSeed(1).Hash},
		{"murmur seed ffffffff", collection.MurmurSeed(0xffffffff).Hash},
		{"crc32", crc32.ChecksumIEEE},
		{"fnv", func(b []byte) uint32 { h := newHash(); h.bytes(b); return uint32(h) ^ uint32(h>>32) }},
		{"length", func(b []byte) uint32 { return uint32(len(b)) }},
		{"sum", func(b []byte) uint32 {
			s := uint32(0)
			for _, c := range b {
				s += uint32(c)
			}
			return s
		}},
	}
}

func allFamilies(w *W, fn func(interface {
	order(*W)
	hashes(*W)
})) {
	fn(&family[byte]{"byte", collection.CompareByteSlice, collection.EqualByteSlice,
		func(a []byte) collection.IComparable { return collection.NewComparableByteSlice(a) },
		func(a []byte) collection.IHashable { return collection.NewHashableByteSlice(a) },
		[]byte{0, 1, 2, 'a', 126, 127, 128, 129, 254, 255}})
	fn(&family[int8]{"int8", collection.CompareInt8Slice, collection.EqualInt8Slice,
		func(a []int8) collection.IComparable { return collection.NewComparableInt8Slice(a) }, nil,
		[]int8{-128, -127, -2, -1, 0, 1, 2, 126, 127}})
	fn(&family[int16]{"int16", collection.CompareInt16Slice, collection.EqualInt16Slice,
		func(a []int16) collection.IComparable { return collection.NewComparableInt16Slice(a) },
		func(a []int16) collection.IHashable { return collection.NewHashableInt16Slice(a) },
		[]int16{-32768, -32767, -257, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 257, 32766, 32767}})
	fn(&family[uint16]{"uint16", collection.CompareUint16Slice, collection.EqualUint16Slice,
		func(a []uint16) collection.IComparable { return collection.NewComparableUint16Slice(a) },
		func(a []uint16) collection.IHashable { return collection.NewHashableUint16Slice(a) },
		[]uint16{0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535}})
	fn(&family[int32]{"int32", collection.CompareInt32Slice, collection.EqualInt32Slice,
		func(a []int32) collection.IComparable { return collection.NewComparableInt32Slice(a) },
		func(a []int32) collection.IHashable { return collection.NewHashableInt32Slice(a) },
		[]int32{math.MinInt32, math.MinInt32 + 1, -65537, -65536, -256, -1, 0, 1, 255, 256, 65535, 65536, math.MaxInt32 - 1, math.MaxInt32}})
	fn(&family[uint32]{"uint32", collection.CompareUint32Slice, collection.EqualUint32Slice,
		func(a []uint32) collection.IComparable { return collection.NewComparableUint32Slice(a) },
		func(a []uint32) collection.IHashable { return collection.NewHashableUint32Slice(a) },
		[]uint32{0, 1, 255, 256, 65535, 65536, 1 << 24, math.MaxInt32, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}})
	fn(&family[int64]{"int64", collection.CompareInt64Slice, collection.EqualInt64Slice,
		func(a []int64) collection.IComparable { return collection.NewComparableInt64Slice(a) },
		func(a []int64) collection.IHashable { return collection.NewHashableInt64Slice(a) },
		[]int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, math.MinInt32 - 1, math.MinInt32, -1, 0, 1, math.MaxInt32, math.MaxUint32, 1 << 32, 1<<32 + 1, math.MaxInt64 - 1, math.MaxInt64}})
	fn(&family[uint64]{"uint64", collection.CompareUint64Slice, collection.EqualUint64Slice,
		func(a []uint64) collection.IComparable { return collection.NewComparableUint64Slice(a) },
		func(a []uint64) collection.IHashable { return collection.NewHashableUint64Slice(a) },
		[]uint64{0, 1, math.MaxUint32, 1 << 32, 1<<32 + 1, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}})
	fn(&family[int]{"int", collection.CompareIntSlice, collection.EqualIntSlice, nil, nil,
		[]int{math.MinInt64, math.MinInt64 + 1, -1 << 32, math.MinInt32, -1, 0, 1, math.MaxInt32, 1 << 32, 1<<32 + 1, math.MaxInt64 - 1, math.MaxInt64}})
}

// ---------------------------------------------------------------------------
// element slices: trees of comparable slices, nil elements included

type tree struct {
	leaf  bool
	b     []byte // leaf
	null  bool   // nil element
	kids  []tree
	isNil bool // nil slice
}

func (t tree) String() string {
	switch {
	case t.null:
		return "nil"
	case t.leaf:
		if t.b == nil {
			return "bytes(nil)"
		}
		return fmt.Sprintf("%x", t.b)
	case t.isNil:
		return "[nil]"
	}
	var p []string
	for _, k := range t.kids {
		p = append(p, k.String())
	}
	return "[" + strings.Join(p, " ") + "]"
}

// cmpTree: nil elements first, then lexicographic; nil/empty slices undecided
func cmpTree(a, b tree) (int, bool) {
	if a.null || b.null {
		switch {
		case a.null && b.null:
			return 0, true
		case a.null:
			return -1, true
		}
		return 1, true
	}
	if a.leaf {
		return refCmp(a.b, b.b)
	}
	if a.isNil != b.isNil && len(a.kids) == len(b.kids) {
		return 0, false
	}
	for i := 0; i < len(a.kids) && i < len(b.kids); i++ {
		r, ok := cmpTree(a.kids[i], b.kids[i])
		if !ok {
			return 0, false
		}
		if r != 0 {
			return r, true
		}
	}
	return sgn(len(a.kids) - len(b.kids)), true
}

func (t tree) comparable() collection.IComparable {
	switch {
	case t.null:
		return nil
	case t.leaf:
		return collection.NewComparableByteSlice(append([]byte(nil), t.b...))
	case t.isNil:
		return collection.NewComparableSlice(nil)
	}
	return collection.NewComparableSlice(t.elems())
}

func (t tree) elems() []collection.IComparable {
	s := []collection.IComparable{}
	if t.isNil {
		return nil
	}
	for _, k := range t.kids {
		s = append(s, k.comparable())
	}
	return s
}

func (t tree) hashable() collection.IHashable {
	switch {
	case t.null:
		return nil
	case t.leaf:
		return collection.NewHashableByteSlice(append([]byte(nil), t.b...))
	case t.isNil:
		return collection.NewHashableSlice(nil)
	}
	s := []collection.IHashable{}
	for _, k := range t.kids {
		s = append(s, k.hashable())
	}
	return collection.NewHashableSlice(s)
}

func treeSlices(quick bool) (flat, nested []tree) {
	leaves := []tree{{null: true}, {leaf: true, b: []byte{0}}, {leaf: true, b: []byte{1}}, {leaf: true, b: []byte{1, 0}}, {leaf: true, b: []byte{255}}}
	flat = []tree{{isNil: true}, {}}
	level := []tree{{}}
	max := 3
	if !quick {
		max = 4
	}
	for n := 1; n <= max; n++ {
		var next []tree
		for _, p := range level {
			for _, l := range leaves {
				next = append(next, tree{kids: append(append([]tree{}, p.kids...), l)})
			}
		}
		flat = append(flat, next...)
		level = next
	}
	inner := append([]tree{{null: true}}, flat[1:1+1+5+10]...)
	nested = []tree{{isNil: true}, {}}
	for _, a := range inner {
		nested = append(nested, tree{kids: []tree{a}})
		for _, b := range inner {
			nested = append(nested, tree{kids: []tree{a, b}})
		}
	}
	return
}

// ---------------------------------------------------------------------------
// record keys

type keyRep struct {
	name string
	mk   func(sub [][]byte) util.IKey // nil: this representation does not exist for these sub keys
}

func cpSubs(sub [][]byte) [][]byte {
	r := [][]byte{}
	for _, s := range sub {
		r = append(r, append([]byte{}, s...))
	}
	return r
}

func buildKey(sub [][]byte) *util.Key {
	k := util.NewKey()
	for _, s := range sub {
		k.Add(append(make([]byte, 0, len(s)+3), s...))
	}
	return k
}

func mapKey(sub [][]byte, tail []byte) (*util.MappedKey, error) {
	k := buildKey(sub)
	if err := k.Encode(nil); err != nil {
		return nil, err
	}
	m, _, err := util.NewMappedKey(append(append([]byte{}, k.Buf()...), tail...))
	return m, err
}

func keyReps() []keyRep {
	must := func(m *util.MappedKey, err error) util.IKey {
		if err != nil {
			panic(err)
		}
		return m
	}
	return []keyRep{
		{"built", func(s [][]byte) util.IKey { return buildKey(s) }},
		{"mapped", func(s [][]byte) util.IKey { return must(mapKey(s, nil)) }},
		{"mapped+tail", func(s [][]byte) util.IKey { return must(mapKey(s, []byte{1, 1, 'z', 0, 0xff})) }},
		{"empty", func(s [][]byte) util.IKey {
			if len(s) == 0 {
				return util.NewEmptyKey()
			}
			return nil
		}},
		{"absent", func(s [][]byte) util.IKey {
			if len(s) == 0 {
				m, _, err := util.NewMappedKey(nil)
				return must(m, err)
			}
			return nil
		}},
		{"simple", func(s [][]byte) util.IKey {
			if len(s) == 1 {
				return util.NewSimpleKey(append([]byte{}, s[0]...))
			}
			return nil
		}},
		{"string", func(s [][]byte) util.IKey {
			if len(s) == 1 {
				return util.NewStringKey(string(s[0]))
			}
			return nil
		}},
		{"copy", func(s [][]byte) util.IKey { return buildKey(s).Copy().(util.IKey) }},
		{"construct", func(s [][]byte) util.IKey {
			k, err := must(mapKey(s, []byte{7})).CopyConstruct()
			if err != nil {
				panic(err)
			}
			return k.(util.IKey)
		}},
		{"mapped-copy", func(s [][]byte) util.IKey { return must(mapKey(s, nil)).Copy().(util.IKey) }},
		{"encoded", func(s [][]byte) util.IKey {
			k := buildKey(s)
			if err := k.Encode(nil); err != nil {
				panic(err)
			}
			return k
		}},
	}
}

func cmpSubs(a, b [][]byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := bytes.Compare(a[i], b[i]); c != 0 {
			return c
		}
	}
	return sgn(len(a) - len(b))
}

func subsString(s [][]byte) string {
	var p []string
	for _, x := range s {
		if len(x) > 12 {
			p = append(p, fmt.Sprintf("%x..(%d)", x[:4], len(x)))
		} else {
			p = append(p, fmt.Sprintf("%x", x))
		}
	}
	return "/" + strings.Join(p, "/")
}

func repb(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }

// keyAlphabet: parts at the boundaries of order, prefixes and length coding
func keyLists(maxParts int, alpha [][]byte) [][][]byte {
	ls := [][][]byte{{}}
	level := [][][]byte{{}}
	for n := 1; n <= maxParts; n++ {
		var next [][][]byte
		for _, p := range level {
			for _, x := range alpha {
				next = append(next, append(append([][]byte{}, p...), x))
			}
		}
		ls = append(ls, next...)
		level = next
	}
	return ls
}

func orderKeys(quick bool) [][][]byte {
	alpha := [][]byte{{0}, {1}, {0x7f}, {0x80}, {255}, {1, 0}, {1, 1}, {2, 1, 1}, []byte("ab")}
	ls := keyLists(2, alpha)
	small := [][]byte{{0}, {1}, {1, 0}, {255}}
	if quick {
		small = small[1:]
	}
	n := 4
	if !quick {
		n = 5
	}
	for _, l := range keyLists(n, small) {
		if len(l) > 2 {
			ls = append(ls, l)
		}
	}
	for _, n := range []int{127, 128, 129, 255, 256, 300} {
		ls = append(ls, [][]byte{repb('a', n)}, [][]byte{repb('a', n), {1}}, [][]byte{append(repb('a', n), 0)}, [][]byte{{1}, repb('b', n)})
	}
	var many [][]byte
	for i := 0; i < 300; i++ {
		many = append(many, []byte{1})
		if i == 126 || i == 127 || i == 128 || i == 254 || i == 255 || i == 299 {
			ls = append(ls, append([][]byte{}, many...))
		}
	}
	return ls
}

func minMax[T ordered](w *W, name string, min, max func(a, b T) T, alpha []T) {
	for _, a := range alpha {
		for _, b := range alpha {
			a, b := a, b
			w.Case("minmax-"+name, func() string { return fmt.Sprintf("%d %d", a, b) }, func() error {
				lo, hi := a, b
				if b < a {
					lo, hi = b, a
				}
				w.transitions += 2
				if x := min(a, b); x != lo {
					return bad("min", "minimum of %d and %d is %d (%s)", a, b, x, name)
				}
				if x := max(a, b); x != hi {
					return bad("max", "maximum of %d and %d is %d (%s)", a, b, x, name)
				}
				w.Outcome(name, a < b, a == b)
				return nil
			})
		}
	}
}

func bounds[T ordered](min, max T) []T {
	vs := map[T]bool{}
	add := func(x T) { vs[x] = true; vs[x-1] = true; vs[x+1] = true }
	add(min)
	add(max)
	add(0)
	for s := uint(0); s < 64; s++ {
		x := T(1) << s
		if x == 0 {
			break
		}
		add(x)
		add(0 - x)
	}
	var r []T
	for v := range vs {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

type plainStruct struct{ a, b int }

func init() {
	register("C05", checkInfo{level: "exploration",
		rule:  "every ordered pair of operands from exhaustive boundary spaces (all slices up to length 3 over boundary element values, all positions of long slices, all 65536 pairs of 8-bit elements, all keys up to 4 parts in up to 11 representations) against a reference lexicographic order; distinct outcomes = distinct (type, expected result, lengths)",
		assum: []string{"whether a nil slice equals an empty one is left open (only required to be consistent)", "operands of the same type, comparing across types is a documented panic"}}, checkOrder)
	register("C06", checkInfo{level: "exploration",
		rule:  "every operand of the C05 spaces hashed under seven hash functions at every placement (offset, surroundings, spare capacity, representation) must give one value; Murmur3 compared with a byte-wise reference over all strings up to 2 bytes and all lengths, offsets and single byte changes; distinct outcomes = distinct operands",
		assum: []string{"the hash of an element slice is an order-insensitive XOR by its documentation"}}, checkHashes)
}

func checkOrder(w *W) {
	allFamilies(w, func(f interface {
		order(*W)
		hashes(*W)
	}) {
		f.order(w)
	})
	// element slices
	flat, nested := treeSlices(w.Quick())
	for si, set := range [][]tree{flat, nested} {
		for i, a := range set {
			for j, b := range set {
				a, b, i, j := a, b, i, j
				w.Case(fmt.Sprintf("elements%d", si), func() string { return fmt.Sprintf("%d %d: %v %v", i, j, a, b) }, func() error {
					r, ok := cmpTree(a, b)
					w.Outcome(si, r, ok)
					w.transitions++
					x, y := a.comparable(), b.comparable()
					c, d, e, g := sgn(x.Compare(y)), sgn(y.Compare(x)), x.Equal(y), y.Equal(x)
					if c != -d {
						return bad("antisymmetric", "compare(%v,%v)=%d but the other way %d", a, b, c, d)
					}
					if e != (c == 0) || g != (c == 0) {
						return bad("equal", "compare(%v,%v)=%d but equal is %v/%v", a, b, c, e, g)
					}
					if ok && c != r {
						return bad("order", "compare(%v,%v)=%d, expected %d", a, b, c, r)
					}
					if k := sgn(collection.CompareSlice(a.elems(), b.elems())); (ok && k != r) || k != c {
						return bad("order", "CompareSlice(%v,%v)=%d, expected %d", a, b, k, r)
					}
					hx, hy := a.hashable(), b.hashable()
					if hx.Equal(hy) != hy.Equal(hx) || (ok && hx.Equal(hy) != (r == 0)) {
						return bad("equal", "hashable slices %v and %v: equal is %v/%v", a, b, hx.Equal(hy), hy.Equal(hx))
					}
					return nil
				})
			}
		}
	}
	// absent objects (nil pointers): equal to each other, smaller than any other
	w.Case("nil-pointer", func() string { return "" }, func() error {
		nils := []collection.IComparable{(*collection.ComparableSlice)(nil), (*collection.ComparableByteSlice)(nil), (*collection.ComparableInt8Slice)(nil),
			(*collection.ComparableInt16Slice)(nil), (*collection.ComparableUint16Slice)(nil), (*collection.ComparableInt32Slice)(nil),
			(*collection.ComparableUint32Slice)(nil), (*collection.ComparableInt64Slice)(nil), (*collection.ComparableUint64Slice)(nil)}
		objs := []collection.IComparable{collection.NewComparableSlice(nil), collection.NewComparableByteSlice([]byte{}), collection.NewComparableInt8Slice([]int8{-1}),
			collection.NewComparableInt16Slice(nil), collection.NewComparableUint16Slice([]uint16{1}), collection.NewComparableInt32Slice([]int32{-1}),
			collection.NewComparableUint32Slice(nil), collection.NewComparableInt64Slice([]int64{-1}), collection.NewComparableUint64Slice([]uint64{0})}
		for i, n := range nils {
			x := objs[i]
			if a, b, c, d := n.Compare(nil), n.Compare(n), n.Compare(x), x.Compare(n); a != 0 || b != 0 || c >= 0 || d <= 0 {
				return bad("nilptr", "%T: an absent one compares %d with nil, %d with itself, %d with a present one, which compares %d with it", n, a, b, c, d)
			}
			if !n.Equal(nil) || n.Equal(x) {
				return bad("nilptr", "%T: an absent one equals nil: %v, equals a present one: %v", n, n.Equal(nil), n.Equal(x))
			}
			if !collection.IsNil(n) || collection.IsNil(x) {
				return bad("nilptr", "%T: wrong test for absence", n)
			}
		}
		hnils := []collection.IHashable{(*collection.HashableSlice)(nil), (*collection.HashableByteSlice)(nil), (*collection.HashableInt16Slice)(nil), (*collection.HashableUint16Slice)(nil),
			(*collection.HashableInt32Slice)(nil), (*collection.HashableUint32Slice)(nil), (*collection.HashableInt64Slice)(nil), (*collection.HashableUint64Slice)(nil)}
		hobjs := []collection.IHashable{collection.NewHashableSlice(nil), collection.NewHashableByteSlice(nil), collection.NewHashableInt16Slice([]int16{1}), collection.NewHashableUint16Slice([]uint16{}),
			collection.NewHashableInt32Slice(nil), collection.NewHashableUint32Slice([]uint32{1}), collection.NewHashableInt64Slice(nil), collection.NewHashableUint64Slice(nil)}
		for i, n := range hnils {
			if !n.Equal(nil) || n.Equal(hobjs[i]) {
				return bad("nilptr", "%T: an absent one equals nil: %v, equals a present one: %v", n, n.Equal(nil), n.Equal(hobjs[i]))
			}
		}
		return nil
	})
	// nil operands
	w.Case("nil", func() string { return "" }, func() error {
		for _, x := range []collection.IComparable{collection.NewComparableSlice(nil), collection.NewComparableSlice([]collection.IComparable{}),
			collection.NewComparableByteSlice([]byte{1}), collection.NewComparableByteSlice(nil), collection.NewComparableInt8Slice([]int8{-1}), collection.NewComparableInt16Slice([]int16{-1}),
			collection.NewComparableUint16Slice([]uint16{1}), collection.NewComparableInt32Slice([]int32{-1}), collection.NewComparableUint32Slice(nil),
			collection.NewComparableInt64Slice([]int64{-1}), collection.NewComparableUint64Slice([]uint64{0}),
			util.NewEmptyKey(), util.NewKey(), util.NewStringKey("a")} {
			if x.Compare(nil) <= 0 {
				return bad("nil", "%T compared with nil gives %d", x, x.Compare(nil))
			}
			if x.Equal(nil) {
				return bad("nil", "%T equals nil", x)
			}
			if x.Compare(x) != 0 || !x.Equal(x) {
				return bad("self", "%T does not equal itself", x)
			}
			if x.Equal("other") || x.Equal(plainStruct{}) {
				return bad("type", "%T equals a string", x)
			}
		}
		for _, x := range []collection.IHashable{collection.NewHashableByteSlice([]byte{1}), collection.NewHashableInt16Slice([]int16{1}), collection.NewHashableUint16Slice([]uint16{1}),
			collection.NewHashableInt32Slice([]int32{1}), collection.NewHashableUint32Slice([]uint32{1}), collection.NewHashableInt64Slice([]int64{1}), collection.NewHashableUint64Slice([]uint64{1})} {
			if x.Equal(nil) || x.Equal("other") || !x.Equal(x) {
				return bad("type", "%T: wrong equality with nil, another type or itself", x)
			}
			for _, y := range []collection.IHashable{collection.NewHashableByteSlice([]byte{1}), collection.NewHashableInt16Slice([]int16{1}), collection.NewHashableUint16Slice([]uint16{1}),
				collection.NewHashableInt32Slice([]int32{1}), collection.NewHashableUint32Slice([]uint32{1}), collection.NewHashableInt64Slice([]int64{1}), collection.NewHashableUint64Slice([]uint64{1})} {
				if (reflect.TypeOf(x) == reflect.TypeOf(y)) != x.Equal(y) {
					return bad("type", "%T and %T: equal is %v", x, y, x.Equal(y))
				}
			}
		}
		return nil
	})
	w.Case("isnil", func() string { return "" }, func() error {
		var p *plainStruct
		var s []byte
		var m map[int]int
		var c chan int
		var k util.IKey
		for i, x := range []interface{}{nil, p, s, m, c, k, (*util.Key)(nil), [][]byte(nil)} {
			if !collection.IsNil(x) {
				return bad("isnil", "nil value number %d (%T) is not recognised as nil", i, x)
			}
		}
		for _, x := range []interface{}{&plainStruct{}, plainStruct{}, []byte{}, map[int]int{}, make(chan int), 0, "", false, [2]int{}, [0]int{}, 0.0, func() {}, util.NewKey(), struct{}{}} {
			if collection.IsNil(x) {
				return bad("isnil", "%T %v is taken for nil", x, x)
			}
		}
		return nil
	})
	// keys in every representation
	ls := orderKeys(w.Quick())
	reps := keyReps()
	type rk struct {
		sub  [][]byte
		rep  string
		mk   func(sub [][]byte) util.IKey
		long bool
	}
	var ks []rk
	for _, l := range ls {
		long := false
		for _, x := range l {
			long = long || len(x) > 3
		}
		for ri, r := range reps {
			if (long || len(l) > 2) && ri > 1 && w.Quick() {
				continue
			}
			if len(l) < 2 || r.name != "empty" && r.name != "absent" && r.name != "simple" && r.name != "string" {
				ks = append(ks, rk{l, r.name, r.mk, long})
			}
		}
	}
	for i, a := range ks {
		a, i := a, i
		w.Case("keys", func() string { return fmt.Sprintf("%d: %s %s against all", i, subsString(a.sub), a.rep) }, func() error {
			x := a.mk(a.sub)
			if x == nil {
				return nil
			}
			if x.IsEmpty() != (len(a.sub) == 0) {
				return bad("keyempty", "key %s (%s): IsEmpty is %v", subsString(a.sub), a.rep, x.IsEmpty())
			}
			for _, b := range ks {
				y := b.mk(b.sub)
				if y == nil {
					continue
				}
				w.transitions++
				want := sgn(cmpSubs(a.sub, b.sub))
				c := sgn(x.Compare(y))
				if c != want {
					return bad("keyorder", "key %s (%s) compared with %s (%s) gives %d, expected %d", subsString(a.sub), a.rep, subsString(b.sub), b.rep, c, want)
				}
				if x.Equal(y) != (want == 0) {
					return bad("keyequal", "key %s (%s) and %s (%s): equal is %v", subsString(a.sub), a.rep, subsString(b.sub), b.rep, x.Equal(y))
				}
			}
			w.Outcome(subsString(a.sub), a.rep)
			if x.Compare(nil) <= 0 || x.Equal(nil) || x.Equal("x") {
				return bad("nil", "key %s (%s): wrong result against nil or another type", subsString(a.sub), a.rep)
			}
			if !eqSubs(x.Key(), a.sub) {
				return bad("modified", "key %s (%s) was modified by comparing: %v", subsString(a.sub), a.rep, x.Key())
			}
			return nil
		})
	}
	// minimum, maximum
	b8 := func() (r []int8) {
		for i := -128; i < 128; i++ {
			r = append(r, int8(i))
		}
		return
	}()
	u8 := func() (r []uint8) {
		for i := 0; i < 256; i++ {
			r = append(r, uint8(i))
		}
		return
	}()
	minMax(w, "int", collection.MinInt, collection.MaxInt, bounds[int](math.MinInt64, math.MaxInt64))
	minMax(w, "uint", collection.MinUnt, collection.MaxUint, bounds[int](0, math.MaxInt64))
	minMax(w, "int8", collection.MinInt8, collection.MaxInt8, b8)
	minMax(w, "uint8", collection.MinUnt8, collection.MaxUint8, u8)
	minMax(w, "int16", collection.MinInt16, collection.MaxInt16, bounds[int16](math.MinInt16, math.MaxInt16))
	minMax(w, "uint16", collection.MinUnt16, collection.MaxUint16, bounds[uint16](0, math.MaxUint16))
	minMax(w, "int32", collection.MinInt32, collection.MaxInt32, bounds[int32](math.MinInt32, math.MaxInt32))
	minMax(w, "uint32", collection.MinUint32, collection.MaxUint32, bounds[uint32](0, math.MaxUint32))
	minMax(w, "int64", collection.MinInt64, collection.MaxInt64, bounds[int64](math.MinInt64, math.MaxInt64))
	minMax(w, "uint64", collection.MinUint64, collection.MaxUint64, bounds[uint64](0, math.MaxUint64))
}

func eqSubs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func checkHashes(w *W) {
	// Murmur3 against the published algorithm
	one := func(seed uint32, buf []byte) error {
		keep := append([]byte{}, buf...)
		got := collection.MurmurSeed(seed).Hash(buf)
		want := murmur3(seed, buf)
		w.transitions++
		if got != want {
			return bad("murmur", "hash of %x with seed %08x is %08x, Murmur3 gives %08x", buf, seed, got, want)
		}
		if h := collection.NewHashableByteSlice(buf).HashUint32(collection.MurmurSeed(seed).Hash); h != want {
			return bad("murmur", "hash of the byte slice %x with seed %08x is %08x, Murmur3 gives %08x", buf, seed, h, want)
		}
		if !bytes.Equal(keep, buf) {
			return bad("modified", "hashing modified the bytes")
		}
		return nil
	}
	seeds := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x9747b28c}
	w.Case("vectors", func() string { return "" }, func() error {
		// published vectors, which also bind the reference itself
		for _, v := range []struct {
			s    string
			seed uint32
			h    uint32
		}{{"", 0, 0}, {"", 1, 0x514e28b7}, {"", 0xffffffff, 0x81f16f39}, {"test", 0, 0xba6bd213}, {"test", 0x9747b28c, 0x704b81dc},
			{"Hello, world!", 0, 0xc0363e43}, {"Hello, world!", 0x9747b28c, 0x24884cba}, {"The quick brown fox jumps over the lazy dog", 0, 0x2e4ff723},
			{"\xff\xff\xff\xff", 0, 0x76293b50}, {"!Ce\x87", 0, 0xf55b516b}, {"!Ce", 0, 0x7e4a8634}, {"!C", 0, 0xa0f7b07a}, {"!", 0, 0x72661cf4}} {
			if murmur3(v.seed, []byte(v.s)) != v.h {
				return fmt.Errorf("the reference itself is wrong on %q", v.s)
			}
			if err := one(v.seed, []byte(v.s)); err != nil {
				return err
			}
		}
		return nil
	})
	for x := 0; x < 256; x++ {
		x := x
		w.Case("two-bytes", func() string { return fmt.Sprint(x) }, func() error {
			for _, s := range seeds {
				if err := one(s, []byte{byte(x)}); err != nil {
					return err
				}
				for y := 0; y < 256; y++ {
					if err := one(s, []byte{byte(x), byte(y)}); err != nil {
						return err
					}
					if !w.Quick() || y%16 == x%16 {
						for z := 0; z < 256; z++ {
							if err := one(s, []byte{byte(x), byte(y), byte(z)}); err != nil {
								return err
							}
						}
					}
				}
			}
			w.Outcome("two", x)
			return nil
		})
	}
	N := 70
	if !w.Quick() {
		N = 300
	}
	for n := 0; n <= N; n++ {
		for off := 0; off < 8; off++ {
			n, off := n, off
			w.Case("placement", func() string { return fmt.Sprintf("length %d offset %d", n, off) }, func() error {
				for _, fillv := range []byte{0, 0xff} {
					back := repb(fillv, off+n+16)
					s := back[off : off+n : off+n+8]
					for _, seed := range seeds {
						for pat := 0; pat < 3; pat++ {
							for i := range s {
								s[i] = []byte{0, 0xff, byte(i*37 + n)}[pat]
							}
							if err := one(seed, s); err != nil {
								return err
							}
							for i := range s {
								for _, v := range []byte{1, 0x7f, 0x80} {
									o := s[i]
									s[i] ^= v
									err := one(seed, s)
									s[i] = o
									if err != nil {
										return err
									}
								}
							}
						}
					}
					for i, c := range back {
						if (i < off || i >= off+n) && c != fillv {
							return bad("modified", "hashing wrote outside of the bytes")
						}
					}
				}
				w.Outcome("place", n, off)
				return nil
			})
		}
	}
	allFamilies(w, func(f interface {
		order(*W)
		hashes(*W)
	}) {
		f.hashes(w)
	})
	fns := hashFuncs()
	flat, nested := treeSlices(w.Quick())
	for si, set := range [][]tree{flat, nested} {
		for i, a := range set {
			a, i := a, i
			w.Case(fmt.Sprintf("elements%d", si), func() string { return fmt.Sprintf("%d: %v", i, a) }, func() error {
				x, y := a.hashable(), a.hashable()
				for _, fn := range fns {
					w.transitions++
					if x.HashUint32(fn.f) != y.HashUint32(fn.f) {
						return bad("elements", "two equal slices %v hash differently", a)
					}
				}
				w.Outcome(a.String())
				// every slice equal to this one
				for _, b := range set {
					z := b.hashable()
					if x.Equal(z) && x.HashUint32(fns[0].f) != z.HashUint32(fns[0].f) {
						return bad("elements", "%v equals %v but hashes differently", a, b)
					}
				}
				return nil
			})
		}
	}
	ls := orderKeys(w.Quick())
	reps := keyReps()
	for i, l := range ls {
		l, i := l, i
		w.Case("keys", func() string { return fmt.Sprintf("%d: %s", i, subsString(l)) }, func() error {
			var first []uint32
			for _, r := range reps {
				k := r.mk(l)
				if k == nil {
					continue
				}
				for round := 0; round < 2; round++ {
					for n, fn := range fns {
						h := k.HashUint32(fn.f)
						w.transitions++
						if len(first) <= n {
							first = append(first, h)
						} else if first[n] != h {
							return bad("keyhash", "key %s hashes to %08x as %s under %s, otherwise to %08x", subsString(l), h, r.name, fn.name, first[n])
						}
					}
				}
				if !eqSubs(k.Key(), l) {
					return bad("modified", "hashing modified key %s", subsString(l))
				}
			}
			w.Outcome(subsString(l))
			return nil
		})
	}
	// permutations of distinct parts do not systematically collide
	w.Case("permutations", func() string { return "" }, func() error {
		parts := [][]byte{{1}, {2}, []byte("abc"), []byte("abcd"), []byte("a longer part")}
		for _, fn := range fns[:5] {
			seen := map[uint32]bool{}
			total := 0
			var rec func(rest, cur [][]byte)
			rec = func(rest, cur [][]byte) {
				if len(cur) > 0 {
					total++
					seen[buildKey(cur).HashUint32(fn.f)] = true
				}
				for i := range rest {
					r := append(append([][]byte{}, rest[:i]...), rest[i+1:]...)
					rec(r, append(append([][]byte{}, cur...), rest[i]))
				}
			}
			rec(parts, nil)
			w.transitions += int64(total)
			if len(seen)*20 < total*19 {
				return bad("permutation", "%d keys made of the same parts have only %d hashes under %s", total, len(seen), fn.name)
			}
			// repeated parts: [a a] and [b b]
			rs := map[uint32]bool{}
			for _, p := range parts {
				rs[buildKey([][]byte{p, p}).HashUint32(fn.f)] = true
			}
			if len(rs) < 2 {
				return bad("permutation", "keys of two identical parts all have one hash under %s", fn.name)
			}
		}
		return nil
	})
}
