package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"time"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C30: the formats themselves.  A reference encoder, written from the format
// descriptions alone and using no code of the library, against the library in
// both directions.

func wUint(x uint64) (b []byte) { // 7 bits a byte, least significant first
	for x > 127 {
		b = append(b, byte(x)|128)
		x >>= 7
	}
	return append(b, byte(x))
}

func wInt(x int64) []byte { // zigzag
	u := uint64(x) << 1
	if x < 0 {
		u = ^u
	}
	return wUint(u)
}

func wBytes(d []byte) []byte { return append(wUint(uint64(len(d))), d...) }

func wKey(k [][]byte) []byte {
	b := wUint(uint64(len(k)))
	for _, p := range k {
		b = append(b, wBytes(p)...)
	}
	return b
}

// wide: which length fields take two bytes although one would do
const (
	wideLen  = 1
	wideSize = 2
	wideAlt  = 4 // only at every second level
)

func wNum(n int, wide bool) (class byte, b []byte) {
	switch {
	case n == 0:
		return 0, nil
	case n < 256 && !wide:
		return 1, []byte{byte(n)}
	case n < 65536:
		return 2, []byte{byte(n / 256), byte(n % 256)}
	}
	return 3, nil
}

// wVal is the encoding of a value, nil if it cannot be represented.
func wVal(v *val, wide int) []byte {
	if v.isNil() {
		return []byte{0}
	}
	sub := wide
	if wide&wideAlt != 0 {
		sub = wide ^ (wideLen | wideSize)
	}
	var content []byte
	n, shift := 0, uint(0)
	switch v.kind {
	case 'p':
		content = v.data
	case 'a':
		n, shift = len(v.kids), 6
		for _, k := range v.kids {
			e := wVal(k, sub)
			if e == nil {
				return nil
			}
			content = append(content, e...)
		}
	default:
		n, shift = len(v.recs), 4
		for _, r := range v.recs {
			e := wRec(r, sub)
			if e == nil {
				return nil
			}
			content = append(content, e...)
		}
	}
	size, sb := wNum(n, wide&wideSize != 0)
	length, lb := wNum(len(content), wide&wideLen != 0)
	if size == 3 || length == 3 {
		return nil
	}
	return append(append(append([]byte{size<<shift | length}, sb...), lb...), content...)
}

func wRec(r *rec, wide int) []byte {
	b := []byte{0}
	if len(r.key) > 0 {
		k := wKey(r.key)
		if len(k) > 4096 {
			return nil
		}
		b[0] |= 1 << 6
		b = append(b, k...)
	}
	for i, v := range []*val{r.value, r.scheme} {
		if v.isNil() {
			continue
		}
		e := wVal(v, wide)
		if e == nil || len(e) > []int{56 << 10, 1 << 10}[i] {
			return nil
		}
		b[0] |= 1 << uint(5-i)
		b = append(b, e...)
	}
	if r.ts != nil {
		b[0] |= 1 << 2
		for s := 56; s >= 0; s -= 8 {
			b = append(b, byte(uint64(*r.ts)>>uint(s)))
		}
		if r.r != nil && r.s != nil {
			b[0] |= 1 << 1
			b = append(append(b, be32(r.r)...), be32(r.s)...)
		}
	}
	return b
}

// wTrie: nodes in ascending order, each with the offset of its parent; the
// children of a node follow it and are ended by a zero byte
type wNode struct {
	key  []byte
	val  *val
	kids map[string]*wNode
}

func wTrie(keys [][][]byte, vals []*val) []byte {
	root := &wNode{kids: map[string]*wNode{}}
	for i, k := range keys {
		n := root
		for _, p := range k {
			if n.kids[string(p)] == nil {
				n.kids[string(p)] = &wNode{key: p, kids: map[string]*wNode{}}
			}
			n = n.kids[string(p)]
		}
		n.val = vals[i]
	}
	var b []byte
	var emit func(n *wNode, parent int)
	emit = func(n *wNode, parent int) {
		at := len(b)
		b = append(append(append(b, 1), wBytes(n.key)...), wUint(uint64(parent))...)
		b = append(append(b, wVal(n.val, 0)...), wUint(uint64(len(n.kids)))...)
		var ks []string
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			emit(n.kids[k], at)
		}
		if len(ks) > 0 || n == root {
			b = append(b, 0)
		}
	}
	emit(root, 0)
	return b
}

// wTable: an independent reader and builder of minimal perfect hash tables
type wTable struct {
	l0, l1 []uint32
	m0, m1 uint32
	keys   [][][]byte
	seed   uint32
	hashes []uint32
	byKey  bool
}

func wU32(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

func (t *wTable) bytes() []byte {
	b := []byte{0}
	if t.byKey {
		b[0] = 1
	}
	for i, l := range [][]uint32{t.l0, t.l1} {
		b = append(b, wU32(uint32(len(l)))...)
		for _, x := range l {
			b = append(b, wU32(x)...)
		}
		b = append(b, wU32([]uint32{t.m0, t.m1}[i])...)
	}
	if t.byKey {
		b = append(b, wU32(uint32(len(t.keys)))...)
		for _, k := range t.keys {
			b = append(b, wKey(k)...)
		}
		return b
	}
	b = append(append(b, wU32(t.seed)...), wU32(uint32(len(t.hashes)))...)
	for _, h := range t.hashes {
		b = append(b, wU32(h)...)
	}
	return b
}

func wReadTable(b []byte) (t *wTable, err error) {
	defer func() {
		if recover() != nil {
			err = bad("table", "the encoded table %s is too short for what it announces", showBB(b))
		}
	}()
	t = &wTable{byKey: b[0] == 1}
	if b[0] > 1 {
		return nil, bad("table", "the encoded table begins with %d", b[0])
	}
	b = b[1:]
	u32 := func() (x uint32) {
		x = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		b = b[4:]
		return
	}
	list := func() (l []uint32) {
		for n := u32(); n > 0; n-- {
			l = append(l, u32())
		}
		return
	}
	t.l0 = list()
	t.m0 = u32()
	t.l1 = list()
	t.m1 = u32()
	if t.byKey {
		uv := func() (x uint64) {
			for s := uint(0); ; s += 7 {
				c := b[0]
				b = b[1:]
				x |= uint64(c&127) << s
				if c < 128 {
					return
				}
			}
		}
		for n := u32(); n > 0; n-- {
			k := [][]byte{}
			for m := uv(); m > 0; m-- {
				l := uv()
				k = append(k, b[:l])
				b = b[l:]
			}
			t.keys = append(t.keys, k)
		}
	} else {
		t.seed = u32()
		t.hashes = list()
	}
	if len(b) > 0 {
		return nil, bad("table", "%d bytes follow the encoded table", len(b))
	}
	return t, nil
}

// lookup of a key of one part
func (t *wTable) lookup(k []byte) (uint32, bool) {
	i := t.l1[murmur3(t.l0[murmur3(0, k)&t.m0], k)&t.m1]
	if t.byKey {
		return i, int(i) < len(t.keys) && len(t.keys[i]) == 1 && bytes.Equal(t.keys[i][0], k)
	}
	return i, int(i) < len(t.hashes) && t.hashes[i] == murmur3(t.seed, k)
}

// wBuild: one seed per bucket, found by trying; s0 is the first seed tried, b0 the number of buckets
func wBuild(keys [][]byte, byKey bool, b0 int, s0 uint32) *wTable {
	p2 := 1
	for p2 < len(keys) {
		p2 *= 2
	}
	t := &wTable{l0: make([]uint32, b0), l1: make([]uint32, p2), m0: uint32(b0 - 1), m1: uint32(p2 - 1), byKey: byKey, seed: 0x01020304}
	bk := make([][]int, b0)
	for i, k := range keys {
		h := murmur3(0, k) & t.m0
		bk[h] = append(bk[h], i)
		t.keys = append(t.keys, [][]byte{k})
		t.hashes = append(t.hashes, murmur3(t.seed, k))
	}
	order := forward(b0)
	sort.SliceStable(order, func(i, j int) bool { return len(bk[order[i]]) > len(bk[order[j]]) })
	used := make([]bool, p2)
	for _, o := range order {
	seeds:
		for seed := s0; ; seed++ {
			mine := map[uint32]bool{}
			for _, i := range bk[o] {
				h := murmur3(seed, keys[i]) & t.m1
				if used[h] || mine[h] {
					continue seeds
				}
				mine[h] = true
			}
			for _, i := range bk[o] {
				h := murmur3(seed, keys[i]) & t.m1
				used[h] = true
				t.l1[h] = uint32(i)
			}
			t.l0[o] = seed
			break
		}
	}
	return t
}

// wireVal compares the two encodings of a value and decodes the reference's.
func (w *W) wireVal(v *val, wides []int) error {
	x := v.build()
	want := wVal(v, 0)
	err := x.Encode(nil)
	w.transitions++
	if (err == nil) != (want != nil) {
		return bad("value", "encoding value %v: %v; the format can represent it: %v", v, err, want != nil)
	}
	if want == nil {
		return nil
	}
	// containers without elements have no encoding of their own
	if (v.isNil() && v.kind == 'p' || !v.isNil()) && !bytes.Equal(x.Buf(), want) {
		return bad("value", "value %v is encoded as %s, the format says %s", v, showBB(x.Buf()), showBB(want))
	}
	w.Outcome(want)
	seen := [][]byte{}
	for _, wide := range wides {
		b := wVal(v, wide)
		if b == nil || (len(seen) > 0 && bytes.Equal(b, seen[0])) {
			continue
		}
		seen = append(seen, b)
		for _, tail := range []string{"", "\x00\x01"} {
			m, n, err := util.NewStandardMappedValue(append(append([]byte{}, b...), tail...))
			w.transitions++
			if err != nil || n != len(b) {
				return bad("readvalue", "value %v in the format is %s: %d bytes consumed, %v", v, showBB(b), n, err)
			}
			if err := match(v, m, forward); err != nil {
				return bad("readvalue", "value %v in the format is %s: %v", v, showBB(b), err)
			}
		}
	}
	return nil
}

func (w *W) wireRec(r *rec, wides []int) error {
	x := r.build()
	want := wRec(r, 0)
	err := x.Encode(nil)
	w.transitions++
	if (err == nil) != (want != nil) {
		return bad("record", "encoding %v: %v; the format can represent it: %v", r, err, want != nil)
	}
	if want == nil {
		return nil
	}
	if !bytes.Equal(x.Buf(), want) {
		return bad("record", "%v is encoded as %s, the format says %s", r, showBB(x.Buf()), showBB(want))
	}
	w.Outcome(want)
	for _, wide := range wides {
		b := wRec(r, wide)
		if b == nil {
			continue
		}
		for _, tail := range []string{"", "\x00\x01"} {
			m, n, err := util.NewMappedRecord(append(append([]byte{}, b...), tail...))
			w.transitions++
			if err != nil || n != len(b) {
				return bad("readrecord", "%v in the format is %s: %d bytes consumed, %v", r, showBB(b), n, err)
			}
			if err := matchRec(r, m, forward); err != nil {
				return bad("readrecord", "%v in the format is %s: %v", r, showBB(b), err)
			}
		}
	}
	return nil
}

func wireNumbers(w *W) {
	for _, u := range uvals() {
		u := u
		w.Case("uint", func() string { return fmt.Sprint(u) }, func() error {
			w.transitions += 4
			w.Outcome(u)
			if b := util.EncodeUvarint64(u); !bytes.Equal(b, wUint(u)) {
				return bad("uint", "%d is encoded as %x, the format says %x", u, b, wUint(u))
			}
			if v, n, err := util.DecodeUvarint64(append(wUint(u), 0x81)); v != u || n != len(wUint(u)) || err != nil {
				return bad("uint", "%x is read as %d (%d bytes, %v), the format says %d", wUint(u), v, n, err, u)
			}
			s := int64(u)
			if b := util.EncodeVarint64(s); !bytes.Equal(b, wInt(s)) {
				return bad("int", "%d is encoded as %x, the format says %x", s, b, wInt(s))
			}
			if v, n, err := util.DecodeVarint64(append(wInt(s), 0x81)); v != s || n != len(wInt(s)) || err != nil {
				return bad("int", "%x is read as %d (%d bytes, %v), the format says %d", wInt(s), v, n, err, s)
			}
			return nil
		})
	}
	lens := []int{16383, 16384, 16385, 65535, 65536}
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	for _, n := range lens {
		n := n
		w.Case("string", func() string { return fmt.Sprint(n) }, func() error {
			w.transitions += 2
			d := fill(n, byte(n))
			if b := util.EncodeVarchar(d); !bytes.Equal(b, wBytes(d)) {
				return bad("string", "%d bytes are encoded as %s, the format says %s", n, showBB(b), showBB(wBytes(d)))
			}
			if r, m, err := util.DecodeVarchar(append(wBytes(d), 1, 2)); err != nil || m != len(wBytes(d)) || !bytes.Equal(r, d) {
				return bad("string", "%s is read as %s (%d bytes, %v)", showBB(wBytes(d)), showBB(r), m, err)
			}
			return nil
		})
	}
}

func wireTimes(w *W) {
	vs := []uint32{0, 1, 255, 256, 65536, 1 << 24, 0x01020304, 0xfffefdfc, math.MaxUint32}
	for _, a := range vs {
		a := a
		w.Case("ledger", func() string { return fmt.Sprint(a) }, func() error {
			return wireTime(w, util.NewLedgerTime(a), append([]byte{1}, wU32(a)...))
		})
		for _, b := range vs {
			for _, c := range vs {
				b, c := b, c
				w.Case("raft", func() string { return fmt.Sprint(a, b, c) }, func() error {
					return wireTime(w, util.NewRaftTime(a, b, c), append(append(append([]byte{2}, wU32(a)...), wU32(b)...), wU32(c)...))
				})
			}
		}
	}
	for _, n := range []int64{0, 1, -1, 255, 256, 1 << 32, 1500000000123456789, math.MaxInt64, math.MinInt64, 0x0102030405060708} {
		n := n
		w.Case("stamp", func() string { return fmt.Sprint(n) }, func() error {
			w.transitions += 2
			t := time.Unix(0, n)
			want := append(wU32(uint32(uint64(n)>>32)), wU32(uint32(n))...)
			if b := collection.TimeToBytes(&t); !bytes.Equal(b, want) {
				return bad("stamp", "the time %d ns is encoded as %x, the format says %x", n, b, want)
			}
			if u, err := collection.BytesToTime(want); err != nil || u == nil || u.UnixNano() != n {
				return bad("stamp", "%x is read as %v, %v, the format says %d ns", want, u, err, n)
			}
			return nil
		})
	}
}

func wireTime(w *W, t util.IConsensusTime, want []byte) error {
	w.transitions += 2
	w.Outcome(want)
	if b := t.Buf(); !bytes.Equal(b, want) {
		return bad("time", "the time %v is encoded as %x, the format says %x", t, b, want)
	}
	u, err := util.NewConsensusTime(append(append([]byte{}, want...), 7))
	if err != nil {
		return bad("time", "%x is not read: %v", want, err)
	}
	if eq, err := u.EQ(t); err != nil || !eq {
		return bad("time", "%x is read as another time (%v)", want, err)
	}
	return nil
}

func wireKeys(w *W) {
	for i, k := range codecKeys(w.Quick()) {
		i, k := i, k
		w.Case("key", func() string { return fmt.Sprintf("%d: %s", i, trunc(subsString(k), 80)) }, func() error {
			w.transitions += 2
			want := wKey(k)
			if len(k) > 0 && len(want) <= 4096 {
				x := buildKey(k)
				if err := x.Encode(nil); err != nil || !bytes.Equal(x.Buf(), want) {
					return bad("key", "key %s is encoded as %s (%v), the format says %s", subsString(k), showBB(x.Buf()), err, showBB(want))
				}
			}
			if len(want) > 4096 {
				return nil
			}
			w.Outcome(want)
			for _, tail := range []string{"", "\x00\x01"} {
				m, n, err := util.NewMappedKey(append(append([]byte{}, want...), tail...))
				if err != nil || n != len(want) || !eqSubs(m.Key(), k) {
					return bad("readkey", "key %s in the format is %s: %d bytes consumed, %v", subsString(k), showBB(want), n, err)
				}
			}
			return nil
		})
	}
}

func wireSchemes(w *W) {
	strs := []int{-1, 0, 1, 2, 127, 128, 200}
	var bs [][]int
	bs = append(bs, nil, []int{})
	for _, a := range []int{0, 1, 127, 128} {
		bs = append(bs, []int{a})
		for _, b := range []int{0, 1, 130} {
			bs = append(bs, []int{a, b}, []int{b, a, b})
		}
	}
	bs = append(bs, make([]int, 127), make([]int, 128), make([]int, 300))
	for _, d := range strs {
		for _, t := range strs {
			for i, bk := range bs {
				d, t, i, bk := d, t, i, bk
				w.Case("scheme", func() string { return fmt.Sprint(d, t, i) }, func() error {
					want := []byte{0}
					part := func(bit byte, n int, seed byte) {
						if n >= 0 {
							want[0] |= bit
							want = append(want, wBytes(fill(n, seed))...)
						}
					}
					part(1<<7, d, 'd')
					part(1<<6, t, 't')
					if bk != nil {
						want[0] |= 1 << 5
						want = append(want, wUint(uint64(len(bk)))...)
						for j, n := range bk {
							want = append(want, wBytes(fill(n, byte(j)))...)
						}
					}
					if len(want) > 1024 {
						return nil
					}
					w.transitions += 2
					w.Outcome(want)
					s := util.NewMappedSchemd(append(append([]byte{}, want...), 3))
					if n, err := s.Decode(nil); err != nil || n != len(want) {
						return bad("readscheme", "the scheme %s is not read: %d bytes, %v", showBB(want), n, err)
					}
					same := func(b []byte, n int, seed byte) bool {
						return n < 0 && b == nil || n >= 0 && b != nil && bytes.Equal(b, fill(n, seed))
					}
					if !same(s.Domain(), d, 'd') || !same(s.Tablet(), t, 't') || (s.Buckets() == nil) != (bk == nil) || len(s.Buckets()) != len(bk) {
						return bad("readscheme", "the scheme %s is read as domain %s tablet %s and %d buckets", showBB(want), showBB(s.Domain()), showBB(s.Tablet()), len(s.Buckets()))
					}
					for j, n := range bk {
						if !bytes.Equal(s.BucketAt(j), fill(n, byte(j))) {
							return bad("readscheme", "the scheme %s is read with bucket %s at %d", showBB(want), showBB(s.BucketAt(j)), j)
						}
					}
					c, err := s.CopyConstruct()
					if err == nil {
						err = c.Encode(nil)
					}
					if err != nil || !bytes.Equal(c.Buf(), want) {
						return bad("scheme", "a scheme is encoded as %s (%v), the format says %s", showBB(c.Buf()), err, showBB(want))
					}
					return nil
				})
			}
		}
	}
}

func wireValues(w *W) {
	wides := []int{0, wideLen, wideSize, wideLen | wideSize, wideAlt, wideAlt | wideLen, wideAlt | wideSize, wideAlt | wideLen | wideSize}
	for i, v := range valueTrees(w.Quick()) {
		i, v := i, v
		w.Case("value", func() string { return fmt.Sprintf("%d: %v", i, v) }, func() error { return w.wireVal(v, wides) })
	}
	// every content length around the boundaries, and every number of elements
	var lens []int
	for n := 0; n <= 600; n++ {
		lens = append(lens, n)
	}
	for _, c := range []int{1024, 4096, 32768, 65536} {
		for d := -8; d <= 8; d++ {
			lens = append(lens, c+d)
		}
	}
	for _, n := range lens {
		n := n
		w.Case("length", func() string { return fmt.Sprint(n) }, func() error {
			vs := []*val{primB(fill(n, 1)), arr(primB(fill(n, 2))), list(&rec{value: primB(fill(n, 3))}), arr(prim(1), arr(primB(fill(n, 4)), prim(2)))}
			if n > 0 && n <= 600 {
				var ks, ps []*val
				var rs, qs []*rec
				for i := 0; i < n; i++ {
					ks = append(ks, prim())
					ps = append(ps, prim(byte(i)))
					rs = append(rs, &rec{})
					qs = append(qs, &rec{key: parts("k")})
				}
				vs = append(vs, arr(ks...), arr(ps...), list(rs...), list(qs...))
			}
			for _, v := range vs {
				if err := w.wireVal(v, wides); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func wireRecords(w *W) {
	keys := [][][]byte{nil, parts("a"), parts("a", "bc", "d"), {repb(0xff, 127)}, {repb(1, 128), {0}}, many(130, []byte{2})}
	vals := []*val{nil, prim(0), prim('v', 'w'), primB(fill(255, 1)), primB(fill(256, 2)), arr(prim()), arr(prim(1), arr(prim(2), prim())), list(&rec{}),
		list(&rec{key: parts("in"), value: prim(1), ts: i64(3)}, &rec{scheme: prim(2)})}
	schemes := []*val{nil, prim('s'), primB(fill(300, 1)), arr(prim(1), prim(2)), list(&rec{value: prim(3)})}
	times := []*int64{nil, i64(0), i64(1), i64(-1), i64(math.MaxInt64), i64(math.MinInt64), i64(1500000000123456789), i64(1 << 32), i64(255)}
	type sg struct{ r, s *big.Int }
	sigs := []sg{{nil, nil}, {big1, nil}, {nil, big1}, {big.NewInt(0), big.NewInt(0)}, {big1, bigMid}, {bigMax, big248}, {big.NewInt(0), bigMax}, {big248, big1}}
	i := 0
	for _, k := range keys {
		for _, v := range vals {
			for _, s := range schemes {
				for _, t := range times {
					for _, g := range sigs {
						i++
						r := &rec{key: k, value: v, scheme: s, ts: t, r: g.r, s: g.s}
						wides := []int{0, wideLen | wideSize}
						if g.r != nil && (g.s == nil || t == nil) {
							wides = nil // a signature that is not encoded
						} else if g.r == nil && g.s != nil {
							wides = nil
						}
						w.Case("record", func() string { return fmt.Sprintf("%d: %v", i, r) }, func() error { return w.wireRec(r, wides) })
					}
				}
			}
		}
	}
	for d := -4; d <= 4; d++ {
		d := d
		w.Case("limit", func() string { return fmt.Sprint(d) }, func() error {
			for _, r := range []*rec{{value: primB(fill(57344-3+d, 1))}, {scheme: primB(fill(1024-3+d, 1))}, {key: [][]byte{repb('k', 4096-3+d)}},
				{value: arr(primB(fill(57344-6+d, 1)))}, {key: many(1+(4096+d)/3, []byte{1, 2})[:(4094+d)/3], value: prim(1)}} {
				if err := w.wireRec(r, []int{0}); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func wireTries(w *W) {
	us := [][][][]byte{
		ks("", "a", "a/b", "a/b/c", "b", "b/a"),
		ks("a/x/y", "a/x/z", "a/xx", "ab", "b/b/b/b", ""),
	}
	vs := []*val{prim(1), primB(fill(300, 1)), arr(prim(1), prim(2)), list(&rec{key: parts("k"), value: prim(1)})}
	one := func(keys [][][]byte, vals []*val, order []int) error {
		want := wTrie(keys, vals)
		w.transitions += 2
		w.Outcome(want)
		t := util.NewTrie()
		for _, i := range order {
			t.Set(buildKey(keys[i]), vals[i].build())
		}
		if err := t.Encode(nil); err != nil || !bytes.Equal(t.Buf(), want) {
			return bad("trie", "a trie of %d keys is encoded as %s (%v), the format says %s", len(keys), showBB(t.Buf()), err, showBB(want))
		}
		m, n, err := util.NewMappedTrie(append(append([]byte{}, want...), 1, 1, 'x'))
		if err != nil || n != len(want) {
			return bad("readtrie", "a trie of %d keys in the format is %s: %d bytes consumed, %v", len(keys), showBB(want), n, err)
		}
		for i, k := range keys {
			if err := match(vals[i], m.Get(buildKey(k)), forward); err != nil {
				return bad("readtrie", "a trie in the format is %s: key %s: %v", showBB(want), subsString(k), err)
			}
			if x := m.Get(buildKey(append(append([][]byte{}, k...), []byte("?")))); !isNilI(x) {
				return bad("readtrie", "a trie in the format is %s: an absent key below %s has a value", showBB(want), subsString(k))
			}
		}
		return nil
	}
	for ui, u := range us {
		n := 1
		for range u {
			n *= 3
		}
		for c := 0; c < n; c++ { // every key absent or with one of two values
			u, c := u, c
			w.Case("trie", func() string { return fmt.Sprint(ui, c) }, func() error {
				var keys [][][]byte
				var vals []*val
				x := c
				for i, k := range u {
					if x%3 > 0 {
						keys = append(keys, k)
						vals = append(vals, vs[(i+x%3)%len(vs)])
					}
					x /= 3
				}
				for _, o := range [][]int{forward(len(keys)), backward(len(keys)), inside(len(keys))} {
					if err := one(keys, vals, o); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// offsets of every length: values fill the space between the nodes
	for _, sz := range []int{20, 100, 120, 126, 127, 128, 250, 5000, 8000, 16000, 16370, 20000, 32000, 60000, 65000} {
		sz := sz
		w.Case("offsets", func() string { return fmt.Sprint(sz) }, func() error {
			for _, n := range []int{2, 3, 5, 40} {
				var keys [][][]byte
				var vals []*val
				for i := 0; i < n; i++ {
					k := [][]byte{{byte(i)}}
					keys = append(keys, k, append(k[:1:1], []byte{1}), append(k[:1:1], []byte{1}, []byte{2}))
					vals = append(vals, primB(fill(sz, byte(i))), prim(byte(i)), prim(1))
				}
				if err := one(keys, vals, forward(len(keys))); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for _, n := range []int{127, 128, 129, 300, 1000} {
		n := n
		w.Case("bigtrie", func() string { return fmt.Sprint(n) }, func() error {
			var wide, deep, long [][][]byte
			var vals []*val
			for i := 0; i < n; i++ {
				wide = append(wide, [][]byte{{byte(i >> 8), byte(i)}})
				vals = append(vals, prim(byte(i), 1))
				if i < 130 {
					deep = append(deep, many(i+1, []byte{7}))
				}
			}
			long = append(long, [][]byte{repb('l', n)}, [][]byte{repb('l', n), repb('m', n)}, [][]byte{{1}, {2}})
			for _, k := range [][][][]byte{wide, deep, long} {
				if err := one(k, vals[:len(k)], backward(len(k))); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func wireTables(w *W) {
	sizes := []int{}
	for n := 0; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 127, 128, 129, 500)
	gens := []func(i int) []byte{
		func(i int) []byte { return []byte(fmt.Sprintf("key-%d", i)) },
		func(i int) []byte { return []byte{byte(i), byte(i >> 8), 0} },
		func(i int) []byte { return append(fill(i%140, 3), byte(i), byte(i>>8)) },
	}
	for _, n := range sizes {
		for g, gen := range gens {
			for _, byKey := range []bool{false, true} {
				n, g, gen, byKey := n, g, gen, byKey
				w.Case("table", func() string { return fmt.Sprint(n, g, byKey) }, func() error {
					var keys []util.IKey
					var ks [][]byte
					for i := 0; i < n; i++ {
						ks = append(ks, gen(i))
						keys = append(keys, buildKey([][]byte{gen(i)}))
					}
					setRand(byte(n), 5, 6, 7)
					t := util.MPHBuild(keys, byKey)
					w.transitions++
					b, err := t.Encode()
					if err != nil {
						return bad("table", "encoding a table of %d keys: %v", n, err)
					}
					w.Outcome(n, g, byKey, b)
					r, err := wReadTable(b)
					if err != nil {
						return err
					}
					if r.byKey != byKey {
						return bad("table", "a table of %d keys is encoded with %x at its beginning", n, b[0])
					}
					for i, k := range ks {
						if j, ok := r.lookup(k); !ok || int(j) != i {
							return bad("table", "an encoded table of %d keys, read by its format, finds key %d at %d (%v)", n, i, j, ok)
						}
					}
					if n == 0 {
						return nil
					}
					// tables of another builder
					for _, b0 := range []int{1, 2, 8} {
						if b0 == 1 && n > 12 || b0 == 2 && n > 24 || n > 100 { // too many seeds to try
							continue
						}
						for _, s0 := range []uint32{0, 1, 0x01020304} {
							b := wBuild(ks, byKey, b0, s0).bytes()
							u, c, err := util.NewMPHTable(append(append([]byte{}, b...), 9))
							w.transitions++
							if err != nil || c != len(b) {
								return bad("readtable", "a table of %d keys in the format is not read: %d of %d bytes, %v", n, c, len(b), err)
							}
							for i := range ks {
								if j, ok := u.Lookup(keys[i]); !ok || int(j) != i {
									return bad("readtable", "a table of %d keys in the format: key %d is found at %d (%v)", n, i, j, ok)
								}
							}
							if byKey {
								if _, ok := u.Lookup(util.NewStringKey("absent")); ok {
									return bad("readtable", "a table of %d keys in the format: an absent key is found", n)
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// wireFiles: key files written by the format alone are loaded, and files the library saves are read by it.
func wireFiles(w *W) {
	kfScratch()
	names := []string{"node", "cluster", "universe", "service", "federation"}
	secrets := [][]byte{[]byte("0123456789abcdef"), repb(7, 24), repb(0, 32)}
	keys := kfKeys(8)
	crc := func(b []byte) []byte { return append(append([]byte{}, b...), wU32(crc32.ChecksumIEEE(b))...) }
	for ci, cls := range kfClasses {
		for ki, key := range keys {
			for si, sec := range secrets {
				ci, cls, ki, key, si, sec := ci, cls, ki, key, si, sec
				w.Case("files", func() string { return fmt.Sprint(ci, ki, si) }, func() error {
					id := kfID("wire")
					dir := kfDir(cls, id)
					defer kfClean(cls, id)
					kfClean(cls, id)
					block, _ := aes.NewCipher(sec)
					gcm, _ := cipher.NewGCM(block)
					pub, priv := filepath.Join(dir, names[ci]+"_id.pub"), filepath.Join(dir, names[ci]+"_id")
					w.transitions += 2
					w.Outcome(ci, ki, si)
					if want := filepath.Join(filepath.Dir(util.LCGetEtcDir(util.CLS_NODE)), names[ci]); util.LCGetEtcDir(cls) != want {
						return bad("file", "the keys of class %d are in %s, not in %s", cls, util.LCGetEtcDir(cls), want)
					}
					// saved by the library
					if err := kfSave(kfSlot{cls, id}, key, sec); err != nil {
						return bad("file", "saving: %v", err)
					}
					read := func(p string) ([]byte, error) {
						t, err := os.ReadFile(p)
						if err != nil {
							return nil, bad("file", "the saved key is not in %s: %v", filepath.Base(p), err)
						}
						b := make([]byte, hex.DecodedLen(len(t)))
						n, err := hex.Decode(b, t)
						if err != nil || n < 4 || !bytes.Equal(crc(b[:n-4]), b) {
							return nil, bad("file", "%s does not hold hexadecimal digits with a checksum: %s", filepath.Base(p), trunc(string(t), 300))
						}
						return b[:n-4], nil
					}
					b, err := read(pub)
					if err != nil {
						return err
					}
					if !bytes.Equal(b, be32(key.X)) {
						return bad("file", "the public key file holds %x, the key is %x", b, key.X)
					}
					if b, err = read(priv); err != nil {
						return err
					}
					if len(b) < 12 {
						return bad("file", "the private key file holds %d bytes", len(b))
					}
					p, err := gcm.Open(nil, b[:12], b[12:], nil)
					if err != nil || !bytes.Equal(p, be32(key.D)) {
						return bad("file", "the private key file does not decrypt to the private number: %v", err)
					}
					// written by another program
					nonce := fill(12, byte(si))
					os.WriteFile(pub, []byte(hex.EncodeToString(crc(be32(key.X)))), 0644)
					os.WriteFile(priv, []byte(fmt.Sprintf("%X", crc(append(append([]byte{}, nonce...), gcm.Seal(nil, nonce, be32(key.D), nil)...)))), 0600)
					return kfExpect(w, kfSlot{cls, id}, kfContent{0, 0}, keys[ki:ki+1], [][]byte{sec})
				})
			}
		}
	}
}

func init() {
	register("C30", checkInfo{level: "exploration",
		rule:  "a reference encoder that shares no code with the library against the library, in both directions, over: integers and byte strings, keys, schemes, value trees of the bounded grammar and of every length and element count up to 600 and around the limits (decoding also with every pattern of length fields wider than needed), record component combinations, consensus times and timestamps, every small trie, hash tables of up to 500 keys (read and looked up by the format; tables of an independent builder looked up by the library), key files",
		assum: []string{"Murmur3 of a key of one part decides its place in a hash table", "containers without elements are encoded as part of something else or not at all"}},
		func(w *W) {
			wireNumbers(w)
			wireTimes(w)
			wireKeys(w)
			wireSchemes(w)
			wireValues(w)
			wireRecords(w)
			wireTries(w)
			wireTables(w)
			wireFiles(w)
		})
}
