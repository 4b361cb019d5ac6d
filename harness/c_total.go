package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime/metrics"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// C11: every decoder is total.

// a decoder run: everything observable is hashed into h; n is the number of
// bytes reported as consumed (-1: the decoder reports none)
type decoder struct {
	name string
	run  func(b []byte, h *fnv) (n int, err error)
}

func hbool(h *fnv, b bool) {
	if b {
		h.b(1)
	} else {
		h.b(2)
	}
}

func herr(h *fnv, err error) { hbool(h, err != nil) }

// indices to access in a container of n elements (first, middle, last, beyond)
func probeIdx(n int) []int {
	var r []int
	if n <= 6 {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
	} else {
		r = []int{0, 1, 2, n / 2, n - 2, n - 1}
	}
	if n < 65535 {
		r = append(r, n)
	}
	return append(r, 65535)
}

func probeKey(k util.IKey, h *fnv) {
	if k == nil || isNilPtr(k) {
		h.b(9)
		return
	}
	hbool(h, k.IsEmpty())
	h.u64(uint64(len(k.Key())))
	for i, s := range k.Key() {
		h.bytes(s)
		h.bytes(k.SubKeyAt(i))
	}
	if !k.IsEncoded() { // a modifiable copy
		if err := k.Encode(nil); err != nil {
			herr(h, err)
			return
		}
	}
	h.bytes(k.Buf())
	k.EstBufSize()
	k.IsDecoded()
	h.u64(uint64(k.HashUint32(collection.MurmurSeed(7).Hash)))
	if len(k.Key()) < 3000 {
		k.ToString()
	}
	c := k.Copy().(util.IKey)
	hbool(h, k.Equal(c))
	h.u64(uint64(k.Compare(c)))
	h.u64(uint64(k.Compare(util.NewStringKey("m"))))
	h.u64(uint64(k.Compare(util.NewEmptyKey())))
	m, err := k.CopyConstruct()
	herr(h, err)
	if err == nil {
		hbool(h, k.Equal(m.(util.IKey)))
		herr(h, m.Encode(nil))
	}
}

func probeValue(v util.IValue, h *fnv, copies bool) {
	if isNilI(v) {
		h.b(9)
		return
	}
	hbool(h, v.IsNil())
	hbool(h, v.IsPrimitive())
	hbool(h, v.IsValueArray())
	hbool(h, v.IsRecordList())
	h.u64(uint64(v.Size()))
	h.bytes(v.Value())
	if !v.IsEncoded() { // a modifiable copy
		if err := v.Encode(nil); err != nil {
			herr(h, err)
			return
		}
	}
	h.b(v.ValueMagic())
	h.bytes(v.Buf())
	v.EstBufSize()
	v.LookupEncoder()
	v.CompressEncoder()
	n := 0
	if v.IsValueArray() || v.IsRecordList() {
		n = int(v.Size())
	}
	for _, i := range probeIdx(n) {
		e, err := v.ValueAt(uint16(i))
		herr(h, err)
		if err == nil {
			probeValue(e, h, false)
			if x, err := v.ValueAt(uint16(i)); err != nil || x.Size() != e.Size() { // access again
				h.b(77)
			}
		}
		r, err := v.RecordAt(uint16(i))
		herr(h, err)
		if err == nil {
			probeRecord(r, h, false)
		}
	}
	if copies {
		c := v.Copy().(util.IValue)
		probeValue(c, h, false)
		m, err := v.CopyConstruct()
		herr(h, err)
		if err == nil {
			probeValue(m.(util.IValue), h, false)
		}
	}
}

func probeRecord(r util.IRecord, h *fnv, copies bool) {
	if r == nil || isNilPtr(r) {
		h.b(9)
		return
	}
	probeKey(r.Key(), h)
	probeValue(r.Value(), h, false)
	probeValue(r.Scheme(), h, false)
	if t := r.Timestamp(); t != nil {
		h.u64(uint64(t.UnixNano()))
	}
	a, b := r.Signature()
	if a != nil {
		h.bytes(a.Bytes())
	}
	if b != nil {
		h.bytes(b.Bytes())
	}
	if !r.IsEncoded() {
		if err := r.Encode(nil); err != nil {
			herr(h, err)
			return
		}
	}
	h.b(r.RecordMagic())
	h.bytes(r.Buf())
	r.EstBufSize()
	if copies {
		c := r.Copy().(util.IRecord)
		probeRecord(c, h, false)
		m, err := r.CopyConstruct()
		herr(h, err)
		if err == nil {
			probeRecord(m.(util.IRecord), h, false)
		}
	}
}

func probeScheme(s *util.MappedScheme, h *fnv) {
	h.bytes(s.Domain())
	h.str(s.DomainName())
	h.bytes(s.Tablet())
	h.str(s.TabletName())
	bs := s.Buckets()
	h.u64(uint64(len(bs)))
	for i := range bs {
		h.bytes(bs[i])
		h.bytes(s.BucketAt(i))
	}
	h.b(s.SchemeMagic())
	h.bytes(s.Buf())
	s.EstBufSize()
	s.IsEncoded()
	herr(h, s.Encode(nil))
	c := s.Copy().(*util.Scheme)
	herr(h, c.Encode(nil))
	m, err := s.CopyConstruct()
	herr(h, err)
	if err == nil {
		herr(h, m.Encode(nil))
	}
}

func probeTrieIt(it util.ITrieIterator, h *fnv, size int) error {
	for n := 0; it.HasNext(); n++ {
		if n > size {
			return bad("endless", "a trie of %d bytes yields more than %d entries", size, n)
		}
		pk, pv := it.Peek()
		probeValue(pv, h, false)
		k, v := it.Next()
		probeKey(k, h)
		hbool(h, pk.Equal(k))
		probeValue(v, h, false)
	}
	k, _ := it.Next()
	hbool(h, k == nil)
	return nil
}

var lookupKeys []util.IKey

func decoders() []decoder {
	if lookupKeys == nil {
		lookupKeys = []util.IKey{util.NewStringKey("a"), util.NewStringKey("b"), util.NewEmptyKey(), util.NewStringKey("a").Add([]byte{0xff}),
			util.NewStringKey("cd"), util.NewStringKey("e1"), util.NewStringKey("f2")}
	}
	return []decoder{
		{"varint", func(b []byte, h *fnv) (int, error) {
			v, n, err := util.DecodeVarint64(b)
			h.u64(uint64(v))
			return n, err
		}},
		{"uvarint", func(b []byte, h *fnv) (int, error) {
			v, n, err := util.DecodeUvarint64(b)
			h.u64(v)
			return n, err
		}},
		{"varchar", func(b []byte, h *fnv) (int, error) {
			v, n, err := util.DecodeVarchar(b)
			h.bytes(v)
			if !inside2(v, b) {
				return n, bad("outside", "string returned lies outside the input")
			}
			return n, err
		}},
		{"key", func(b []byte, h *fnv) (int, error) {
			k, n, err := util.NewMappedKey(b)
			if err == nil {
				probeKey(k, h)
			}
			return n, err
		}},
		{"simplevalue", func(b []byte, h *fnv) (int, error) {
			v, n, err := util.NewSimpleMappedValue(b)
			if err == nil {
				hbool(h, v.IsNil())
				h.bytes(v.Value())
				h.bytes(v.Buf())
				h.u64(uint64(v.Size()))
				_, e := v.ValueAt(0)
				herr(h, e)
				_, e = v.RecordAt(0)
				herr(h, e)
				v.EstBufSize()
				c := v.Copy().(util.IValue)
				h.bytes(c.Value())
				m, e := v.CopyConstruct()
				herr(h, e)
				if e == nil {
					h.bytes(m.(util.IValue).Value())
				}
			}
			return n, err
		}},
		{"value", func(b []byte, h *fnv) (int, error) {
			v, n, err := util.NewStandardMappedValue(b)
			if err == nil {
				probeValue(v, h, true)
			}
			return n, err
		}},
		{"record", func(b []byte, h *fnv) (int, error) {
			r, n, err := util.NewMappedRecord(b)
			if err == nil {
				probeRecord(r, h, true)
			}
			return n, err
		}},
		{"scheme", func(b []byte, h *fnv) (int, error) {
			s := util.NewMappedSchemd(b)
			n, err := s.Decode(nil)
			if err == nil {
				probeScheme(s, h)
			}
			return n, err
		}},
		{"time", func(b []byte, h *fnv) (int, error) {
			t, err := util.NewConsensusTime(b)
			if err == nil {
				h.bytes(t.Buf())
				for _, o := range []util.IConsensusTime{t, util.NewLedgerTime(5), util.NewRaftTime(1, 2, 3)} {
					for _, f := range []func(util.IConsensusTime) (bool, error){t.GT, t.GE, t.EQ, t.NE, t.LT, t.LE} {
						x, e := f(o)
						hbool(h, x)
						herr(h, e)
					}
				}
			}
			return -1, err
		}},
		{"id", func(b []byte, h *fnv) (int, error) {
			c, err := util.NewMappedConsensusID(b)
			if err == nil {
				h.b(c.ConsensusMagic())
				h.bytes(c.Buf())
				h.bytes(c.Copy().Buf())
				if !inside2(c.Buf(), b) {
					return len(c.Buf()), bad("outside", "id lies outside the input")
				}
				return len(c.Buf()), nil
			}
			return -1, err
		}},
		{"mph", func(b []byte, h *fnv) (int, error) {
			t, n, err := util.NewMPHTable(b)
			if err == nil {
				for _, k := range lookupKeys {
					i, ok := t.Lookup(k)
					hbool(h, ok)
					if ok {
						h.u64(uint64(i))
					}
				}
				e, err := t.Encode()
				h.bytes(e)
				herr(h, err)
			}
			return n, err
		}},
		{"numbers", func(b []byte, h *fnv) (int, error) {
			h.u64(uint64(collection.ByteArrayToInt64(b)))
			h.u64(uint64(collection.ByteArrayToInt32(b)))
			h.u64(uint64(collection.ByteArrayToUint32(b)))
			h.bytes(collection.ByteArrayToBigInt(b).Bytes())
			t, err := collection.BytesToTime(b)
			herr(h, err)
			if err == nil {
				h.u64(uint64(t.UnixNano()))
			}
			return -1, nil
		}},
		{"base58", func(b []byte, h *fnv) (int, error) {
			r := util.Base58Decode(string(b))
			hbool(h, r == nil)
			h.bytes(r)
			h.str(util.Base58Encode(b))
			return -1, nil
		}},
		{"trie", func(b []byte, h *fnv) (int, error) {
			t, n, err := util.NewMappedTrie(b)
			if err == nil {
				h.bytes(t.Buf())
				h.u64(uint64(t.EstBufSize()))
				hbool(h, t.IsDecoded())
				for i := 0; i < 2; i++ {
					for _, k := range lookupKeys {
						probeValue(t.Get(k), h, i == 0)
					}
				}
				if e := probeTrieIt(t.Iterator(), h, len(b)); e != nil {
					return n, e
				}
				for _, k := range lookupKeys {
					if e := probeTrieIt(t.KeyIterator(k), h, len(b)); e != nil {
						return n, e
					}
					if e := probeTrieIt(t.RangeIterator(k, nil), h, len(b)); e != nil {
						return n, e
					}
					if e := probeTrieIt(t.RangeIterator(nil, k), h, len(b)); e != nil {
						return n, e
					}
				}
				c := t.Copy().(*util.MappedTrie)
				if e := probeTrieIt(c.Iterator(), h, len(b)); e != nil {
					return n, e
				}
				herr(h, t.Encode(nil))
				if _, e := t.CopyConstruct(); e != nil {
					herr(h, e)
				}
			}
			return n, err
		}},
	}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

type obs struct {
	h    fnv
	n    int
	fail bool
}

func (d decoder) observe(b []byte) (obs, error) {
	o := obs{h: newHash()}
	n, err := d.run(b, &o.h)
	if ce, ok := err.(*caseError); ok {
		return o, ce
	}
	o.n = n
	o.fail = err != nil
	if n > len(b) || n < -1 {
		return o, bad("consumed", "%s: consumed %d of %d bytes", d.name, n, len(b))
	}
	return o, nil
}

var (
	placed  = make([]byte, 0, 1<<17)
	placed2 = make([]byte, 0, 1<<17)
)

// placeIn puts b in a larger array whose other bytes are f
func placeIn(buf *[]byte, b []byte, f byte) []byte {
	p := (*buf)[:0]
	if cap(p) < len(b)+16+200 {
		p = make([]byte, 0, len(b)+1000)
		*buf = p
	}
	p = p[:16+len(b)+200]
	for i := 0; i < 16; i++ {
		p[i] = f
	}
	copy(p[16:], b)
	for i := 16 + len(b); i < len(p); i++ {
		p[i] = f
	}
	return p[16 : 16+len(b)]
}

// total runs decoder d on b in three placements
func (w *W) total(d decoder, in []byte) error {
	b := append(make([]byte, 0, len(in)), in...)
	b = b[:len(in):len(in)]
	before := allocated()
	o, err := d.observe(b)
	used := allocated() - before
	if err != nil {
		return err
	}
	if lim := uint64(4<<20)*uint64(len(in)+8) + 1<<20; used > lim {
		return bad("alloc", "%s: %d bytes allocated for an input of %d bytes", d.name, used, len(in))
	}
	if !bytes.Equal(b, in) {
		return bad("modified", "%s: the input is modified", d.name)
	}
	w.transitions++
	for i, buf := range []*[]byte{&placed, &placed2} {
		f := []byte{0, 0x41}[i]
		p := placeIn(buf, in, f)
		o2, err := d.observe(p)
		if err != nil {
			return err
		}
		w.transitions++
		if o2 != o {
			return bad("beyond", "%s: the result depends on bytes outside the input (consumed %d/%d, error %v/%v)", d.name, o.n, o2.n, o.fail, o2.fail)
		}
		full := p[:len(in)+200]
		if !bytes.Equal(p, in) {
			return bad("modified", "%s: the input is modified", d.name)
		}
		for _, c := range full[len(in):] {
			if c != f {
				return bad("modified", "%s: bytes behind the input are modified", d.name)
			}
		}
	}
	// bytes that are not consumed have no influence
	if !o.fail && o.n > 0 && o.n < len(in) {
		o2, err := d.observe(append(make([]byte, 0, o.n), in[:o.n]...))
		if err != nil {
			return err
		}
		if o2 != o {
			return bad("rest", "%s: consumed %d of %d bytes, but the result changes without the rest", d.name, o.n, len(in))
		}
	}
	w.Outcome(d.name, o.fail, o.n, int(o.h))
	return nil
}

// valid encodings to mutate, per decoder
func corpus(name string) (r [][]byte) {
	enc := func(e util.IEncodable) {
		if err := e.Encode(nil); err == nil {
			r = append(r, append([]byte{}, e.Buf()...))
		}
	}
	vals := []*val{prim(), prim(1), prim(1, 2, 3), arr(prim(1)), arr(prim(), prim(2)), arr(arr(prim(1)), prim(2, 2)), list(&rec{key: parts("k")}),
		list(&rec{value: prim(1)}, &rec{key: parts("a", "bc"), value: arr(prim(5)), ts: i64(3)}), arr(list(&rec{value: prim(7)})), primB(repb('x', 300))}
	switch name {
	case "varint":
		for _, x := range []int64{0, -1, 63, 64, -64, -65, 1 << 40, 1<<63 - 1, -1 << 63} {
			r = append(r, util.EncodeVarint64(x))
		}
	case "uvarint":
		for _, x := range []uint64{0, 1, 127, 128, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
			r = append(r, util.EncodeUvarint64(x))
		}
	case "varchar":
		for _, n := range []int{0, 1, 2, 5, 127, 128, 300} {
			r = append(r, util.EncodeVarchar(repb('q', n)))
		}
	case "key":
		for _, k := range [][][]byte{parts("a"), parts("a", "b"), parts("abc", "d", "ef"), {repb('k', 130)}, parts("a", "b", "c", "d")} {
			enc(buildKey(k))
		}
	case "simplevalue", "value":
		for _, v := range vals {
			enc(v.build())
		}
		if name == "simplevalue" {
			for _, n := range []int{0, 1, 3, 127, 128} {
				r = append(r, util.EncodeVarchar(repb('q', n)))
			}
		}
	case "record":
		for _, x := range smallRecs() {
			enc(x.build())
		}
		for _, v := range vals {
			enc((&rec{key: parts("k", "l"), value: v, scheme: prim(1, 2), ts: i64(1 << 40)}).build())
		}
	case "scheme":
		r = append(r, []byte{0}, []byte{0x80, 1, 'd'}, []byte{0x40, 2, 't', 'u'}, []byte{0x20, 2, 1, 'a', 2, 'b', 'c'},
			[]byte{0xe0, 1, 'd', 1, 't', 2, 1, 'a', 1, 'b'}, []byte{0xe0, 0, 0, 0}, []byte{0xa0, 1, 'd', 1, 0})
	case "trie":
		for i, set := range [][]string{{}, {""}, {"a"}, {"b", "b/c"}, {"a", "b", "a/b/c"}, {"a/a", "a/b", "", "b"}, {"a/b/c/d"}} {
			t := util.NewTrie()
			for _, k := range ks(set...) {
				t.Set(buildKey(k), vals[i].build())
			}
			enc(t)
		}
	case "time":
		r = append(r, util.NewLedgerTime(0x01020304).Buf(), util.NewRaftTime(1, 2, 3).Buf())
	case "id":
		for _, m := range []byte{0x80, 0x40, 0x20, 0x10, 0x08, 0xf8, 0x88, 0xc0} {
			n := 1
			for i := uint(4); i < 8; i++ {
				if m>>i&1 != 0 {
					n += 32
				}
			}
			if m&8 != 0 {
				n += 64
			}
			r = append(r, append([]byte{m}, fill(n-1, 3)...))
		}
	case "mph":
		for _, n := range []int{0, 1, 2, 5} {
			for _, byKey := range []bool{true, false} {
				setRand(7)
				var ks []util.IKey
				for i := 0; i < n; i++ {
					ks = append(ks, util.NewStringKey(fmt.Sprintf("%c%d", 'a'+i, i)))
				}
				if e, err := util.MPHBuild(ks, byKey).Encode(); err == nil {
					r = append(r, e)
				}
			}
		}
	case "numbers":
		r = append(r, fill(8, 1), fill(4, 1), fill(32, 1), fill(9, 0x80))
	case "base58":
		r = append(r, []byte("1"), []byte("11z"), []byte("StV1DL6CwTryKyV"), []byte("zzzzzzzzzzz"))
	}
	return
}

func structural(name string) []byte {
	switch name {
	case "varint", "uvarint", "varchar":
		return []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff}
	case "key":
		return []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff}
	case "simplevalue":
		return []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff}
	case "value":
		return []byte{0, 1, 2, 3, 0x10, 0x11, 0x12, 0x40, 0x41, 0x81, 0x20, 0x62}
	case "record":
		return []byte{0, 1, 2, 0x10, 0x20, 0x40, 0x60, 0x70, 0x04, 0x06, 0x41, 0x80}
	case "scheme":
		return []byte{0, 1, 2, 3, 0x20, 0x80, 0xe0, 0xa0, 0x7f, 0xff}
	case "trie":
		return []byte{0, 1, 2, 5, 'a', 0x41, 0xff}
	case "mph":
		return []byte{0, 1, 2, 0xff}
	case "base58":
		return []byte{0, '0', '1', '2', 'z', 'I', 'l', 0xff}
	}
	return []byte{0, 1, 2, 0x80, 0xff, 8}
}

func hexID(name string, b []byte) func() string {
	if len(b) > 900 {
		return func() string { return fmt.Sprintf("%s %d %x %x", name, len(b), b[:300], murmur3(1, b)) }
	}
	return func() string { return fmt.Sprintf("%s %x", name, b) }
}

func checkTotal(w *W) {
	ds := decoders()
	one := func(suite string, d decoder, b []byte) {
		if d.name == "base58" && len(b) > 2000 {
			return // quadratic
		}
		w.Case(suite, hexID(d.name, b), func() error { return w.total(d, b) })
	}
	for _, d := range ds {
		d := d
		// all strings of up to two bytes
		one("short", d, nil)
		for a := 0; a < 256; a++ {
			one("short", d, []byte{byte(a)})
		}
		for a := 0; a < 65536; a++ {
			one("short", d, []byte{byte(a >> 8), byte(a)})
		}
		// all strings of three bytes: over the first byte in full and structural bytes (thorough: in full)
		al := structural(d.name)
		if w.Quick() {
			for a := 0; a < 256; a++ {
				for _, b := range al {
					for _, c := range al {
						one("three", d, []byte{byte(a), b, c})
						one("three", d, []byte{b, byte(a), c})
						one("three", d, []byte{b, c, byte(a)})
					}
				}
			}
		} else {
			for a := 0; a < 1<<24; a++ {
				one("three", d, []byte{byte(a >> 16), byte(a >> 8), byte(a)})
			}
		}
		// all longer strings over the structural alphabet
		limit := 60000
		if !w.Quick() {
			limit = 4000000
		}
		for n := 3; ; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(al)
				if total > limit {
					break
				}
			}
			if total > limit {
				break
			}
			for x := 0; x < total; x++ {
				b := make([]byte, n)
				y := x
				for i := range b {
					b[i] = al[y%len(al)]
					y /= len(al)
				}
				one("words", d, b)
			}
		}
		// runs of one byte, with every first byte of the alphabet
		for _, c := range al {
			for _, f := range al {
				for _, n := range []int{4, 5, 8, 9, 10, 11, 12, 13, 16, 32, 33, 64, 65, 66, 100, 129, 193, 255, 256, 257, 1000, 65535, 65536, 65600} {
					one("runs", d, append([]byte{f}, repb(c, n)...))
					if n <= 1000 {
						one("runs", d, append(append([]byte{f, f}, repb(c, n)...), f))
					}
				}
			}
		}
		// truncations and mutations of valid encodings
		for _, e := range corpus(d.name) {
			e := e
			one("valid", d, e)
			for _, n := range cuts(len(e)) {
				one("cut", d, e[:n])
			}
			pos := len(e)
			if pos > 64 {
				pos = 64
			}
			for i := 0; i < pos; i++ {
				for c := 0; c < 256; c++ {
					b := append([]byte{}, e...)
					b[i] = byte(c)
					one("mutate1", d, b)
				}
				for _, c := range al { // deletions, insertions, truncation after a mutation
					b := append(append(append([]byte{}, e[:i]...), c), e[i:]...)
					one("insert", d, b)
					b = append(append([]byte{}, e[:i]...), c)
					one("cutmutate", d, b)
				}
				b := append(append([]byte{}, e[:i]...), e[i+1:]...)
				one("delete", d, b)
			}
			// two mutations
			m := len(e)
			if m > 16 && w.Quick() {
				m = 16
			} else if m > 40 {
				m = 40
			}
			vals := append([]byte{0xff, 0xfe, 0x7f}, al...)
			for i := 0; i < m; i++ {
				for j := i + 1; j < m; j++ {
					for _, x := range vals {
						for _, y := range vals {
							b := append([]byte{}, e...)
							b[i], b[j] = x, y
							one("mutate2", d, b)
						}
					}
				}
			}
			for _, t := range tails(e) {
				one("tail", d, join(e, t))
			}
		}
	}
	// hash tables of every small shape, consistent or not
	md := decoders()[10]
	words := []uint32{0, 1, 2, 3, 0x40000000, 0x7fffffff, 0xffffffff}
	small := []uint32{0, 1, 2}
	u32 := func(b []byte, x uint32) []byte { return binary.BigEndian.AppendUint32(b, x) }
	for magic := byte(0); magic < 2; magic++ {
		for _, n0 := range small {
			for _, m0 := range words {
				for _, n1 := range small {
					for _, m1 := range words {
						for _, e0 := range []uint32{0, 1, 0xffffffff} {
							for _, e1 := range []uint32{0, 1, 2, 0xffffffff} {
								for _, nv := range small {
									b := []byte{magic}
									b = u32(b, n0)
									for i := uint32(0); i < n0; i++ {
										b = u32(b, e0)
									}
									b = u32(b, m0)
									b = u32(b, n1)
									for i := uint32(0); i < n1; i++ {
										b = u32(b, e1)
									}
									b = u32(b, m1)
									if magic == 0 {
										b = u32(b, 0xdeadbeef)
									}
									b = u32(b, nv)
									for i := uint32(0); i < nv; i++ {
										if magic == 0 {
											b = u32(b, 0x12345678)
										} else {
											b = append(b, 1, 1, byte('a'+i))
										}
									}
									one("mphshape", md, b)
									b = append([]byte{}, b...)
									for _, x := range []uint32{3, 0x40000000, 0xffffffff} { // counts that lie
										c := append([]byte{}, b...)
										binary.BigEndian.PutUint32(c[1:], x)
										one("mphshape", md, c)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// nesting: arrays and record lists inside each other
	if w.Only2("nest") {
		w.limit.Store(120) // these take seconds
		depths, counts := []int{1, 2, 3, 10, 100, 1000, 3000, 8000}, []int{256, 257, 4096, 16384}
		if !w.Quick() {
			depths, counts = append(depths, 10000, 14000, 16000), append(counts, 65535)
		}
		for _, n := range depths {
			for kind := 0; kind < 4; kind++ {
				b := []byte{0x01, 1, 'x'}
				for i := 0; i < n && len(b) < 65000; i++ {
					l := len(b)
					switch kind {
					case 0: // array of one
						b = append([]byte{0x42, 1, byte(l >> 8), byte(l)}, b...)
					case 1: // list of one record holding the value
						l++
						b = append([]byte{0x12, 1, byte(l >> 8), byte(l), 0x20}, b...)
					case 2: // array announcing more than it holds
						b = append([]byte{0x82, 0xff, 0xff, byte(l >> 8), byte(l)}, b...)
						if i > 40 {
							i = n
						}
					case 3: // list announcing more than it holds
						l++
						b = append([]byte{0x22, 0xff, 0xff, byte(l >> 8), byte(l), 0x20}, b...)
						if i > 40 {
							i = n
						}
					}
				}
				one("nest", ds[5], b)
				one("nest", ds[6], append([]byte{0x20}, b...))
				one("nest", ds[6], append([]byte{0x10}, b...))
				if len(b) > 10 {
					one("nest", ds[5], b[:len(b)-1])
				}
			}
		}
		// deep and wide tries
		for _, n := range []int{1, 2, 10, 40, 80} {
			td := ds[len(ds)-1]
			var b, e []byte
			parent := 0
			for i := 0; i <= n; i++ {
				node := []byte{1}
				if i == 0 {
					node = append(node, 0)
				} else {
					node = append(node, 1, 'a')
				}
				node = append(append(node, util.EncodeUvarint64(uint64(parent))...), 0)
				if i < n {
					node = append(node, 1)
				} else {
					node = append(node, 0)
				}
				parent = len(b)
				b = append(b, node...)
				e = append(e, 0)
			}
			e = e[:n]
			one("nest", td, append(append([]byte{}, b...), e...))
			one("nest", td, append(append([]byte{}, b...), e[:n-1]...))
			b = append([]byte{1, 0, 0, 0}, util.EncodeUvarint64(uint64(n))...)
			for i := 0; i < n; i++ {
				b = append(b, 1, 2, byte(i>>8), byte(i), 0, 0, 0)
			}
			one("nest", td, append(append([]byte{}, b...), 0))
			one("nest", td, b)
			b[4]++
			one("nest", td, append(append([]byte{}, b...), 0))
		}
		// containers with very many elements
		for _, n := range counts {
			c := repb(0, n)
			b := append([]byte{0x82, byte(n >> 8), byte(n), byte(n >> 8), byte(n)}, c...)
			one("many", ds[5], b)
			one("many", ds[6], append([]byte{0x20}, b...))
			b = append([]byte{0x22, byte(n >> 8), byte(n), byte(n >> 8), byte(n)}, c...)
			one("many", ds[5], b)
			k := append(util.EncodeUvarint64(uint64(n)), bytes.Repeat([]byte{1, 'k'}, n)...)
			one("many", ds[3], k)
			one("many", ds[6], append([]byte{0x40}, k...))
			s := append([]byte{0x20}, append(util.EncodeUvarint64(uint64(n)), repb(0, n)...)...)
			one("many", ds[7], s)
		}
	}
}

// Only2 is for suites whose cases are costly to construct
func (w *W) Only2(string) bool { return true }

func init() {
	register("C11", checkInfo{level: "exploration",
		rule:  "for every decoder: all inputs of up to 2 bytes, 3 bytes with one byte free and two structural (thorough: all), all words over a structural alphabet up to a length, runs, all truncations, all single-byte mutations, insertions and deletions and all pairs of structural mutations of a corpus of valid encodings, hash tables of every small shape, nesting; each in three placements in memory, followed by every access and copy; distinct outcomes = distinct (decoder, consumed, content)",
		assum: []string{"memory use is bounded by 4 MB per input byte (an array header of 3 bytes announces up to 65535 elements)"}}, checkTotal)
}
