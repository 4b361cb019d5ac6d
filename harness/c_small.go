package main

import (
	"bytes"
	"crypto/md5"
	crand "crypto/rand"
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C13: minimal perfect hash tables

func mphCheck(w *W, subs [][][]byte, absent [][][]byte, byKey bool, seed []byte, mixed bool) error {
	keys := make([]util.IKey, len(subs))
	for i, s := range subs {
		switch {
		case len(s) == 0 && i%2 == 0:
			keys[i] = util.NewEmptyKey()
		case mixed && i%3 == 1 && len(s) > 0:
			m, err := mapKey(s, []byte{1, 2})
			if err != nil {
				return bad("build", "cannot decode key %s: %v", subsString(s), err)
			}
			keys[i] = m
		default:
			keys[i] = buildKey(s)
		}
	}
	list := append([]util.IKey{}, keys...)
	setRand(seed...)
	t := util.MPHBuild(list, byKey)
	for i := range list {
		if list[i] != keys[i] {
			return bad("modified", "building the table changes the list of keys")
		}
	}
	test := func(what string, t *util.MPHTable) error {
		for i, s := range subs {
			for rep := 0; rep < 2; rep++ {
				var k util.IKey = keys[i]
				if rep == 1 {
					k = buildKey(s)
				}
				n, ok := t.Lookup(k)
				if !ok || int(n) != i {
					return bad("lookup", "%s: key %s at position %d of %d: index %d, found %v", what, subsString(s), i, len(subs), n, ok)
				}
			}
		}
		for _, s := range absent {
			if n, ok := t.Lookup(buildKey(s)); ok {
				return bad("absent", "%s: key %s is not in the list of %d keys but is found at %d", what, subsString(s), len(subs), n)
			}
		}
		return nil
	}
	if err := test("built", t); err != nil {
		return err
	}
	enc, err := t.Encode()
	if err != nil {
		return bad("encode", "encoding the table: %v", err)
	}
	keep := append([]byte{}, enc...)
	for _, tail := range [][]byte{nil, {0}, {1, 1, 'x'}, repb(0xff, 9)} {
		in := join(enc, tail)
		u, n, err := util.NewMPHTable(in)
		w.transitions++
		if err != nil {
			return bad("decode", "decoding the encoded table: %v", err)
		}
		if n != len(enc) {
			return bad("decode", "%d bytes consumed, the encoding has %d", n, len(enc))
		}
		if err := test("decoded", u); err != nil {
			return err
		}
		e2, err := u.Encode()
		if err != nil || !bytes.Equal(e2, enc) {
			return bad("encode", "the decoded table encodes differently: %v", err)
		}
	}
	if err := test("after encoding", t); err != nil {
		return err
	}
	e3, err := t.Encode()
	if err != nil || !bytes.Equal(e3, keep) || !bytes.Equal(enc, keep) {
		return bad("encode", "encoding twice gives different results: %v", err)
	}
	w.Outcome(len(subs), byKey, enc)
	return nil
}

func checkMPH(w *W) {
	universe := [][][]byte{nil, parts("a"), parts("b"), parts("a", "b"), parts("b", "a"), parts("ab"), parts("a", "a"), {{0}}, {{0}, {0}}, {{0xff}}, {repb('z', 200)}, parts("k1"), parts("k2"), parts("a", "b", "c")}
	seeds := [][]byte{{0}, {1, 2, 3, 4, 5, 6, 7, 8}, {0xff}}
	// every ordered list of up to 4 distinct keys
	max := 4
	if !w.Quick() {
		max = 5
	}
	var rec func(idx []int)
	rec = func(idx []int) {
		id := func() string { return fmt.Sprint(idx) }
		idx = append([]int{}, idx...)
		w.Case("lists", id, func() error {
			in := map[int]bool{}
			var subs, absent [][][]byte
			for _, i := range idx {
				in[i] = true
				subs = append(subs, universe[i])
			}
			for i := range universe {
				if !in[i] {
					absent = append(absent, universe[i])
				}
			}
			for _, byKey := range []bool{true, false} {
				if err := mphCheck(w, subs, absent, byKey, seeds[1], false); err != nil {
					return err
				}
			}
			return nil
		})
		if len(idx) == max {
			return
		}
	next:
		for i := range universe {
			for _, j := range idx {
				if i == j {
					continue next
				}
			}
			rec(append(idx, i))
		}
	}
	rec(nil)
	// every subset of the universe
	for m := 0; m < 1<<uint(len(universe)); m++ {
		m := m
		w.Case("subsets", func() string { return fmt.Sprint(m) }, func() error {
			var subs, absent [][][]byte
			for i := range universe {
				if m>>uint(i)&1 != 0 {
					subs = append(subs, universe[i])
				} else {
					absent = append(absent, universe[i])
				}
			}
			for _, byKey := range []bool{true, false} {
				for _, s := range seeds {
					if err := mphCheck(w, subs, absent, byKey, s, m&1 != 0); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	// every size
	sizes := []int{}
	top := 400
	if !w.Quick() {
		top = 2000
	}
	for n := 0; n <= top; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 10000, 16384, 20000, 32767, 32768, 32769)
	if !w.Quick() {
		sizes = append(sizes, 65535, 65536, 65537, 100000)
	}
	gens := map[string]func(i int) [][]byte{
		"dec": func(i int) [][]byte { return parts(fmt.Sprint(i)) },
		"bin": func(i int) [][]byte { return [][]byte{{byte(i >> 16), byte(i >> 8), byte(i)}} },
		"two": func(i int) [][]byte { return [][]byte{{byte(i >> 8), 1}, {byte(i)}} },
		"empty": func(i int) [][]byte {
			if i == 0 {
				return nil
			}
			return parts(fmt.Sprint("k", i))
		},
		"len": func(i int) [][]byte {
			return [][]byte{repb(byte('a'+i%7), 1+i/7%90), {byte(i), byte(i >> 8), byte(i >> 16)}}
		},
	}
	for _, g := range []string{"dec", "bin", "two", "empty", "len"} {
		gen := gens[g]
		for _, n := range sizes {
			n := n
			if g == "two" && n > 60000 {
				continue
			}
			w.Case("sizes", func() string { return fmt.Sprintf("%s %d", g, n) }, func() error {
				var subs, absent [][][]byte
				for i := 0; i < n; i++ {
					subs = append(subs, gen(i))
				}
				for i := n; i < n+40; i++ {
					if len(gen(i)) > 0 {
						absent = append(absent, gen(i))
					}
				}
				absent = append(absent, parts("not there"), parts("1", "2", "3"))
				for _, byKey := range []bool{true, false} {
					if err := mphCheck(w, subs, absent, byKey, []byte{byte(n), 3, 9}, n%5 == 1); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

// ---------------------------------------------------------------------------
// C14: consensus times

type ctime struct {
	raft bool
	c    [3]uint32
}

func (c ctime) make() util.IConsensusTime {
	if c.raft {
		return util.NewRaftTime(c.c[0], c.c[1], c.c[2])
	}
	return util.NewLedgerTime(c.c[0])
}

func (c ctime) cmp(d ctime) int {
	for i := range c.c {
		if c.c[i] != d.c[i] {
			if c.c[i] < d.c[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func (c ctime) String() string {
	if c.raft {
		return fmt.Sprintf("raft%v", c.c)
	}
	return fmt.Sprintf("ledger(%d)", c.c[0])
}

func timePair(a, b ctime) error {
	x, y := a.make(), b.make()
	qs := []struct {
		n string
		f func(util.IConsensusTime) (bool, error)
		e func(c int) bool
	}{
		{"GT", x.GT, func(c int) bool { return c > 0 }}, {"GE", x.GE, func(c int) bool { return c >= 0 }},
		{"EQ", x.EQ, func(c int) bool { return c == 0 }}, {"NE", x.NE, func(c int) bool { return c != 0 }},
		{"LT", x.LT, func(c int) bool { return c < 0 }}, {"LE", x.LE, func(c int) bool { return c <= 0 }},
	}
	for _, q := range qs {
		r, err := q.f(y)
		if a.raft != b.raft {
			if err == nil {
				return bad("kinds", "%v %s %v: no error", a, q.n, b)
			}
			continue
		}
		if err != nil {
			return bad("order", "%v %s %v: %v", a, q.n, b, err)
		}
		if r != q.e(a.cmp(b)) {
			return bad("order", "%v %s %v is %v", a, q.n, b, r)
		}
	}
	return nil
}

func checkTimes(w *W) {
	// values: boundaries, powers of two, single bytes
	set := map[uint32]bool{}
	for i := uint(0); i < 32; i++ {
		for d := -1; d <= 1; d++ {
			set[uint32(1<<i)+uint32(d)] = true
		}
	}
	for _, x := range []uint32{0, 0xffffffff, 0x01020304, 0xff00ff00, 0x00ff00ff, 0x7fffffff, 0x80000000, 0x80000001} {
		set[x] = true
	}
	var vals []uint32
	for x := range set {
		vals = append(vals, x)
	}
	sortU32(vals)
	var ts []ctime
	for _, x := range vals {
		ts = append(ts, ctime{false, [3]uint32{x}})
	}
	for i := 0; i < 256; i++ {
		for sh := uint(0); sh < 32; sh += 8 {
			ts = append(ts, ctime{false, [3]uint32{uint32(i) << sh}})
		}
	}
	comp := []uint32{0, 1, 2, 0x100, 0x7fffffff, 0x80000000, 0xffffffff}
	if !w.Quick() {
		comp = []uint32{0, 1, 2, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	}
	var rs []ctime
	for _, a := range comp {
		for _, b := range comp {
			for _, c := range comp {
				rs = append(rs, ctime{true, [3]uint32{a, b, c}})
			}
		}
	}
	for i := range ts {
		a := ts[i]
		w.Case("ledger", func() string { return a.String() }, func() error {
			for _, b := range ts {
				w.transitions++
				if err := timePair(a, b); err != nil {
					return err
				}
			}
			for _, b := range rs {
				if err := timePair(a, b); err != nil {
					return err
				}
				if err := timePair(b, a); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for i := range rs {
		a := rs[i]
		w.Case("raft", func() string { return a.String() }, func() error {
			for _, b := range rs {
				w.transitions++
				if err := timePair(a, b); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// every component in its own right: all pairs of values around boundaries
	for pos := 0; pos < 3; pos++ {
		for _, x := range vals {
			x, pos := x, pos
			w.Case("component", func() string { return fmt.Sprintf("%d %d", pos, x) }, func() error {
				for _, y := range vals {
					for _, o := range []uint32{0, 5, 0xffffffff} {
						a, b := ctime{true, [3]uint32{o, o, o}}, ctime{true, [3]uint32{o, o, o}}
						a.c[pos], b.c[pos] = x, y
						w.transitions++
						if err := timePair(a, b); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	// encodings
	seen := map[string]ctime{}
	lens := map[bool]int{}
	all := append(append([]ctime{}, ts...), rs...)
	for _, x := range vals {
		for pos := 0; pos < 3; pos++ {
			c := ctime{true, [3]uint32{7, 7, 7}}
			c.c[pos] = x
			all = append(all, c)
		}
	}
	for _, a := range all {
		a := a
		w.Case("encoding", func() string { return a.String() }, func() error {
			x := a.make()
			enc := append([]byte{}, x.Buf()...)
			w.Outcome(enc)
			if !bytes.Equal(x.Buf(), enc) {
				return bad("encoding", "%v: two encodings differ", a)
			}
			if l, ok := lens[a.raft]; ok && l != len(enc) {
				return bad("encoding", "%v: encoding has %d bytes, others have %d", a, len(enc), l)
			}
			lens[a.raft] = len(enc)
			if b, ok := seen[string(enc)]; ok && b != a {
				return bad("encoding", "%v and %v have the same encoding", a, b)
			}
			seen[string(enc)] = a
			for _, t := range tails(enc) {
				in := join(enc, t)
				keep := append([]byte{}, in...)
				y, err := util.NewConsensusTime(in)
				w.transitions++
				if err != nil {
					return bad("decode", "%v encoded as %x: %v", a, enc, err)
				}
				if eq, err := x.EQ(y); err != nil || !eq {
					return bad("decode", "%v encoded as %x decodes to a different time, %v", a, enc, err)
				}
				if eq, err := y.EQ(x); err != nil || !eq {
					return bad("decode", "%v encoded as %x decodes to a different time, %v", a, enc, err)
				}
				if !bytes.Equal(y.Buf(), enc) || !bytes.Equal(in, keep) {
					return bad("decode", "%v encoded as %x decodes and re-encodes to %x", a, enc, y.Buf())
				}
				for i := range in { // the decoded time keeps its value
					in[i] ^= 0x5a
				}
				if eq, err := y.EQ(x); err != nil || !eq {
					return bad("decode", "%v: decoded time changes with the buffer", a)
				}
			}
			// handing out an encoding does not expose the time
			b := x.Buf()
			for i := range b {
				b[i] ^= 0x5a
			}
			if !bytes.Equal(x.Buf(), enc) {
				return bad("encoding", "%v: writing to the encoding changes the time", a)
			}
			for n := 0; n < len(enc); n++ {
				for _, in := range truncations(enc, n) {
					if _, err := util.NewConsensusTime(in); err == nil {
						return bad("short", "%v encoded as %x, the first %d bytes are accepted", a, enc, n)
					}
				}
			}
			return nil
		})
	}
	// unknown kinds
	known := map[byte]bool{util.NewLedgerTime(1).Buf()[0]: true, util.NewRaftTime(1, 2, 3).Buf()[0]: true}
	for m := 0; m < 256; m++ {
		m := m
		w.Case("magic", func() string { return fmt.Sprint(m) }, func() error {
			for _, n := range []int{0, 1, 3, 4, 5, 11, 12, 13, 30} {
				_, err := util.NewConsensusTime(append([]byte{byte(m)}, repb(1, n)...))
				if err == nil && !known[byte(m)] {
					return bad("magic", "unknown kind %x with %d bytes is accepted", m, n)
				}
				if err != nil && known[byte(m)] && n >= 12 {
					return bad("magic", "kind %x with %d bytes is rejected: %v", m, n, err)
				}
			}
			return nil
		})
	}
}

func sortU32(v []uint32) {
	for i := range v {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

// ---------------------------------------------------------------------------
// C15: consensus ids

func checkIDs(w *W) {
	for m := 0; m < 256; m++ {
		m := m
		need := 1
		for i := uint(4); i < 8; i++ {
			if m>>i&1 != 0 {
				need += 32
			}
		}
		if m&8 != 0 {
			need += 64
		}
		okMagic := m != 0 && m&7 == 0
		for _, pat := range []byte{0, 1, 0xff} {
			pat := pat
			for n := 0; n <= 230; n++ {
				n := n
				w.Case("id", func() string { return fmt.Sprintf("%02x %d %d", m, n, pat) }, func() error {
					content := repb(pat, n)
					if pat == 1 {
						content = fill(n, byte(m))
					}
					full := append([]byte{byte(m)}, content...)
					for _, in := range truncations(append(append([]byte{}, full...), repb(9, 70)...), 1+n) {
						keep := append([]byte{}, in...)
						c, err := util.NewMappedConsensusID(in)
						w.transitions++
						if okMagic && 1+n >= need {
							if err != nil {
								return bad("rejected", "magic %02x with %d bytes: %v", m, 1+n, err)
							}
						} else {
							if err == nil {
								return bad("accepted", "magic %02x with %d bytes (needs %d) is accepted", m, 1+n, need)
							}
							continue
						}
						want := full[:need]
						if !bytes.Equal(c.Buf(), want) || c.ConsensusMagic() != byte(m) {
							return bad("content", "magic %02x with %d bytes: id is %x, magic %x", m, 1+n, c.Buf(), c.ConsensusMagic())
						}
						d := c.Copy()
						if !bytes.Equal(d.Buf(), want) || d.ConsensusMagic() != byte(m) {
							return bad("copy", "copy of %x is %x", want, d.Buf())
						}
						if !bytes.Equal(in, keep) {
							return bad("modified", "the input is modified")
						}
						for i := range in {
							in[i] ^= 0xa5
						}
						if !bytes.Equal(d.Buf(), want) || d.ConsensusMagic() != byte(m) {
							return bad("copy", "the copy shares the bytes of the original")
						}
						db := d.Buf()
						snap := append([]byte{}, c.Buf()...)
						for i := range db {
							db[i] ^= 0xff
						}
						if !bytes.Equal(c.Buf(), snap) {
							return bad("copy", "the original shares the bytes of the copy")
						}
						w.Outcome(m, want)
					}
					return nil
				})
			}
		}
	}
	w.Case("id", func() string { return "empty" }, func() error {
		for _, in := range [][]byte{nil, {}} {
			if _, err := util.NewMappedConsensusID(in); err == nil {
				return bad("accepted", "an empty input is accepted")
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------------------
// C16: schemes

func checkSchemes(w *W) {
	str := func(n int, seed byte) []byte {
		return append(util.EncodeUvarint64(uint64(n)), fill(n, seed)...)
	}
	one := func(id string, enc []byte) {
		w.Case("scheme", func() string { return id }, func() error {
			w.Outcome(enc)
			for _, t := range tails(enc) {
				in := join(enc, t)
				keep := append([]byte{}, in...)
				s := util.NewMappedSchemd(in)
				n, err := s.Decode(nil)
				w.transitions++
				if err != nil {
					return bad("decode", "%s: %v", showBB(enc), err)
				}
				if n != len(enc) || !bytes.Equal(s.Buf(), enc) || s.SchemeMagic() != enc[0] {
					return bad("consumed", "%s followed by %s: %d of %d bytes consumed", showBB(enc), showB(t), n, len(enc))
				}
				if err := matchScheme(enc, s); err != nil {
					return err
				}
				if !s.IsDecoded() || !s.IsEncoded() {
					return bad("decode", "%s: decoded %v, encoded %v", showBB(enc), s.IsDecoded(), s.IsEncoded())
				}
				for i := 0; i < 2; i++ {
					var e util.IEncodable = s.Copy()
					if i == 1 {
						e, err = s.CopyConstruct()
						if err != nil {
							return bad("copy", "%s: %v", showBB(enc), err)
						}
					}
					for j := 0; j < 3; j++ { // the copy, its copy, and its modifiable copy
						c := e.(*util.Scheme)
						if err := matchScheme(enc, c); err != nil {
							return err
						}
						err := c.Encode(nil)
						if len(enc) > util.MAX_SCHEME_LENGTH {
							if err == nil {
								return bad("limit", "%d bytes of scheme are encoded", len(enc))
							}
						} else {
							if err != nil {
								return bad("encode", "%s: %v", showBB(enc), err)
							}
							if !c.IsEncoded() || c.SchemeMagic() != c.Buf()[0] {
								return bad("encode", "%s: not encoded after encoding", showBB(enc))
							}
							out := append([]byte{}, c.Buf()...)
							d := util.NewMappedSchemd(out)
							n, err := d.Decode(nil)
							if err != nil || n != len(out) {
								return bad("reencode", "%s encodes to %s which does not decode: %v", showBB(enc), showBB(out), err)
							}
							if err := matchScheme(enc, d); err != nil {
								return bad("reencode", "%s encodes to %s: %v", showBB(enc), showBB(out), err)
							}
							if enc[0]&0x1f == 0 && !bytes.Equal(out, enc) {
								return bad("reencode", "%s re-encodes to %s", showBB(enc), showBB(out))
							}
						}
						if j == 0 {
							e = c.Copy()
						} else {
							e, err = c.CopyConstruct()
							if err != nil {
								return bad("copy", "%s: %v", showBB(enc), err)
							}
						}
					}
				}
				if !bytes.Equal(in, keep) {
					return bad("modified", "the input is modified")
				}
			}
			for _, c := range append(cuts(len(enc)), 0) {
				for _, in := range truncations(enc, c) {
					if len(enc) == c {
						continue
					}
					s := util.NewMappedSchemd(in)
					w.transitions++
					if _, err := s.Decode(nil); err == nil {
						return bad("truncated", "%s cut to %d of %d bytes is accepted", showBB(enc), c, len(enc))
					}
				}
			}
			return nil
		})
	}
	lens := []int{-1, 0, 1, 2, 5, 127, 128, 200}
	var bks [][]int
	bks = append(bks, nil, []int{})
	bl := []int{0, 1, 3, 127, 128}
	for _, a := range bl {
		bks = append(bks, []int{a})
		for _, b := range bl {
			bks = append(bks, []int{a, b})
			for _, c := range bl {
				bks = append(bks, []int{a, b, c})
			}
		}
	}
	for _, n := range []int{4, 10, 126, 127, 128, 129, 300, 400} {
		x := make([]int, n)
		for i := range x {
			x[i] = i % 2
		}
		bks = append(bks, x)
	}
	build := func(d, t int, b []int, low byte) []byte {
		enc := []byte{low}
		if d >= 0 {
			enc[0] |= 0x80
			enc = append(enc, str(d, 'd')...)
		}
		if t >= 0 {
			enc[0] |= 0x40
			enc = append(enc, str(t, 't')...)
		}
		if b != nil {
			enc[0] |= 0x20
			enc = append(enc, util.EncodeUvarint64(uint64(len(b)))...)
			for i, n := range b {
				enc = append(enc, str(n, byte('0'+i))...)
			}
		}
		return enc
	}
	for _, d := range lens {
		for _, t := range lens {
			for i, b := range bks {
				low := []byte{0}
				if i < 3 {
					low = []byte{0, 1, 0x1f, 0x10}
				}
				for _, l := range low {
					one(fmt.Sprintf("d%d t%d b%d l%d", d, t, i, l), build(d, t, b, l))
				}
			}
		}
	}
	// around the size limit
	for x := 1000; x < 1040; x++ {
		one(fmt.Sprintf("limit d %d", x), build(x, -1, nil, 0))
		one(fmt.Sprintf("limit t %d", x), build(-1, x, nil, 0))
		one(fmt.Sprintf("limit b %d", x), build(-1, -1, []int{x}, 0))
		one(fmt.Sprintf("limit db %d", x), build(400, -1, []int{x - 400}, 0))
		one(fmt.Sprintf("limit dt %d", x), build(500, x-500, nil, 0))
		one(fmt.Sprintf("limit dtb %d", x), build(300, 300, []int{300, x - 900}, 0))
		one(fmt.Sprintf("limit bb %d", x), build(1, 1, []int{x - 20, 1, 1}, 0))
	}
	// an empty scheme, made or never set
	w.Case("new", func() string { return "new" }, func() error {
		s := util.NewScheme()
		if err := matchScheme([]byte{0}, s); err != nil {
			return err
		}
		if s.IsEncoded() {
			return bad("encode", "a new scheme claims to be encoded")
		}
		if err := s.Encode(nil); err != nil || !bytes.Equal(s.Buf(), []byte{0}) {
			return bad("encode", "a new scheme encodes as %x, %v", s.Buf(), err)
		}
		return nil
	})
}

// ---------------------------------------------------------------------------
// C17: base58

const b58ref = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// reference: repeated division of the digits, no big integers
func base58Ref(b []byte) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	d := append([]byte{}, b[z:]...)
	var out []byte
	for len(d) > 0 {
		r := 0
		var q []byte
		for _, c := range d {
			x := r*256 + int(c)
			if len(q) > 0 || x/58 > 0 {
				q = append(q, byte(x/58))
			}
			r = x % 58
		}
		out = append(out, b58ref[r])
		d = q
	}
	for i := 0; i < z; i++ {
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func b58bytes(b []byte) error {
	keep := append([]byte{}, b...)
	t := util.Base58Encode(b)
	if want := base58Ref(keep); t != want {
		return bad("encode", "%x encodes as %q, standard base58 is %q", keep, t, want)
	}
	d := util.Base58Decode(t)
	if !bytes.Equal(d, keep) {
		return bad("decode", "%x encodes as %q and decodes to %x", keep, t, d)
	}
	if !bytes.Equal(b, keep) {
		return bad("modified", "the input is modified")
	}
	return nil
}

func b58text(t string) error {
	d := util.Base58Decode(t)
	if d == nil && len(t) > 0 {
		return bad("text", "text %q is rejected", t)
	}
	if e := util.Base58Encode(d); e != t {
		return bad("text", "text %q decodes to %x and encodes as %q", t, d, e)
	}
	return nil
}

func checkBase58(w *W) {
	bs := func(b []byte) {
		w.Case("bytes", func() string { return fmt.Sprintf("%x", b) }, func() error { w.Outcome(b); return b58bytes(b) })
	}
	tx := func(t string) {
		w.Case("text", func() string { return t }, func() error { w.Outcome("t", t); return b58text(t) })
	}
	bs(nil)
	for a := 0; a < 256; a++ {
		bs([]byte{byte(a)})
	}
	for a := 0; a < 65536; a++ {
		a := a
		bs([]byte{byte(a >> 8), byte(a)})
		w.Case("bytes3", func() string { return fmt.Sprint(a) }, func() error {
			for c := 0; c < 256; c++ {
				w.transitions++
				if err := b58bytes([]byte{byte(c), byte(a >> 8), byte(a)}); err != nil {
					return err
				}
				if w.Quick() && c >= 10 && c < 250 && a > 3000 {
					c += 40
				}
			}
			return nil
		})
	}
	// words over a small alphabet
	al := []byte{0, 1, 57, 58, 0x80, 0xff}
	n := 6
	if !w.Quick() {
		n = 8
	}
	for l := 3; l <= n; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(al)
		}
		for x := 0; x < total; x++ {
			b := make([]byte, l)
			y := x
			for i := range b {
				b[i] = al[y%len(al)]
				y /= len(al)
			}
			bs(b)
		}
	}
	// long strings, any number of leading zeros
	for z := 0; z < 40; z++ {
		for l := 0; l < 70; l++ {
			for _, p := range []byte{1, 0x7f, 0x80, 0xff} {
				bs(append(repb(0, z), repb(p, l)...))
				bs(append(repb(0, z), fill(l, p)...))
				if l > 0 {
					bs(append(append(repb(0, z), p), repb(0, l)...))
				}
			}
		}
	}
	// every length up to some hundreds
	top, pows := 300, 400
	if !w.Quick() {
		top, pows = 1200, 2000
	}
	longs := []int{511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096}
	for l := 70; l <= top; l++ {
		longs = append(longs, l)
	}
	for _, l := range longs {
		for _, z := range []int{0, 1, 5, 64, 300} {
			bs(append(repb(0, z), fill(l, byte(l|1))...))
			bs(append(repb(0, z), repb(0xff, l)...))
		}
		bs(repb(0, l))
		tx(strings.Repeat("1", l))
		tx(strings.Repeat("z", l))
		tx("1112" + strings.Repeat("1", l))
	}
	// powers of 58 and their neighbours
	p := big.NewInt(1)
	for i := 0; i < pows; i++ {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(p, big.NewInt(d))
			if x.Sign() >= 0 {
				bs(x.Bytes())
			}
		}
		p.Mul(p, big.NewInt(58))
	}
	// texts
	tx("")
	for _, a := range b58ref {
		tx(string(a))
		for _, b := range b58ref {
			tx(string(a) + string(b))
			for _, c := range b58ref {
				tx(string(a) + string(b) + string(c))
			}
		}
	}
	for _, a := range "1z2" {
		for _, b := range "1zA" {
			for l := 1; l < 120; l++ {
				tx(string(a) + strings.Repeat(string(b), l))
				tx(strings.Repeat(string(b), l) + string(a))
			}
		}
	}
	// any other character is not data
	for c := 0; c < 256; c++ {
		if strings.IndexByte(b58ref, byte(c)) >= 0 {
			continue
		}
		c := c
		w.Case("foreign", func() string { return fmt.Sprint(c) }, func() error {
			for _, base := range []string{"", "1", "z", "11", "2g", "zzz", "111111", strings.Repeat("Q", 30)} {
				for i := 0; i <= len(base); i++ {
					t := base[:i] + string([]byte{byte(c)}) + base[i:]
					w.transitions++
					if d := util.Base58Decode(t); len(d) != 0 {
						return bad("foreign", "text %q with character %#x decodes to %x", t, c, d)
					}
					for c2 := 0; c2 < 256; c2 += 5 {
						t2 := t + string([]byte{byte(c2)})
						if d := util.Base58Decode(t2); len(d) != 0 {
							return bad("foreign", "text %q with character %#x decodes to %x", t2, c, d)
						}
					}
				}
			}
			return nil
		})
	}
}

// ---------------------------------------------------------------------------
// C23: random numbers

// stream: the bytes given, then a counter
type stream struct {
	pre []byte
	pos int
	ctr byte
}

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		if s.pos < len(s.pre) {
			p[i] = s.pre[s.pos]
		} else {
			s.ctr += 37
			p[i] = s.ctr
		}
		s.pos++
	}
	return len(p), nil
}

func withStream(pre []byte) *stream {
	s := &stream{pre: pre}
	crand.Reader = s
	return s
}

// plain checks that a plain random number is a rearrangement of width fresh
// bytes (others that are drawn are not used)
func plain(width int, draw func() uint64) error {
	mask := uint64(math.MaxUint64)
	if width < 8 {
		mask = 1<<(8*uint(width)) - 1
	}
	get := func(pre []byte) (uint64, int) {
		s := withStream(pre)
		v := draw() & mask
		return v, s.pos
	}
	_, drawn := get(make([]byte, 64))
	if drawn < width || drawn > 64 {
		return bad("width", "%d bytes drawn for a number of %d bytes", drawn, width)
	}
	perm := make([]int, drawn) // which byte of the number, or none
	used := map[int]bool{}
	for i := 0; i < drawn; i++ {
		pre := make([]byte, drawn)
		pre[i] = 1
		v, n := get(pre)
		if n != drawn {
			return bad("width", "%d bytes drawn for a number of %d bytes, %d before", n, width, drawn)
		}
		p := -1
		if v == 0 {
			perm[i] = -1
			continue
		}
		for k := 0; k < width; k++ {
			if v == 1<<(8*uint(k)) {
				p = k
			}
		}
		if p < 0 || used[p] {
			return bad("bytes", "random byte %d of %d set to 1 gives %#x", i, width, v)
		}
		used[p] = true
		perm[i] = p
	}
	if len(used) != width {
		return bad("width", "a number of %d bytes is made of %d random bytes", width, len(used))
	}
	expect := func(pre []byte) uint64 {
		v := uint64(0)
		for i, b := range pre {
			if perm[i] >= 0 {
				v |= uint64(b) << (8 * uint(perm[i]))
			}
		}
		return v
	}
	test := func(pre []byte) error {
		v, n := get(pre)
		if v != expect(pre) || n != drawn {
			return bad("bytes", "random bytes %x give %#x (%d bytes drawn)", pre, v, n)
		}
		return nil
	}
	for i := 0; i < drawn; i++ {
		for j := 0; j < drawn; j++ {
			for a := 0; a < 256; a++ {
				for _, fillb := range []byte{0, 0xff, 0x80, 0x5a} {
					pre := repb(fillb, drawn)
					pre[i] = byte(a)
					if i != j {
						pre[j] = byte(a) ^ 0x33
					}
					if err := test(pre); err != nil {
						return err
					}
				}
			}
		}
	}
	if drawn == 2 {
		for a := 0; a < 65536; a++ {
			if err := test([]byte{byte(a >> 8), byte(a)}); err != nil {
				return err
			}
		}
	}
	// fresh bytes on every call
	s := &stream{pre: fill(drawn*8, 3)}
	crand.Reader = s
	for k := 0; k < 8; k++ {
		if v := draw() & mask; v != expect(s.pre[k*drawn:(k+1)*drawn]) {
			return bad("fresh", "call %d does not use fresh bytes: %#x from %x", k, v, s.pre)
		}
	}
	return nil
}

type ranger struct {
	name   string
	width  int
	signed bool
	draw   func(min, max *big.Int) *big.Int
}

func rangers() []ranger {
	s := func(v int64) *big.Int { return big.NewInt(v) }
	u := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	return []ranger{
		{"Int8", 1, true, func(a, b *big.Int) *big.Int { return s(int64(util.RandInt8Range(int8(a.Int64()), int8(b.Int64())))) }},
		{"Uint8", 1, false, func(a, b *big.Int) *big.Int {
			return u(uint64(util.RandUint8Range(uint8(a.Uint64()), uint8(b.Uint64()))))
		}},
		{"Int16", 2, true, func(a, b *big.Int) *big.Int {
			return s(int64(util.RandInt16Range(int16(a.Int64()), int16(b.Int64()))))
		}},
		{"Uint16", 2, false, func(a, b *big.Int) *big.Int {
			return u(uint64(util.RandUint16Range(uint16(a.Uint64()), uint16(b.Uint64()))))
		}},
		{"Int32", 4, true, func(a, b *big.Int) *big.Int {
			return s(int64(util.RandInt32Range(int32(a.Int64()), int32(b.Int64()))))
		}},
		{"Uint32", 4, false, func(a, b *big.Int) *big.Int {
			return u(uint64(util.RandUint32Range(uint32(a.Uint64()), uint32(b.Uint64()))))
		}},
		{"Int64", 8, true, func(a, b *big.Int) *big.Int { return s(util.RandInt64Range(a.Int64(), b.Int64())) }},
		{"Uint64", 8, false, func(a, b *big.Int) *big.Int { return u(util.RandUint64Range(a.Uint64(), b.Uint64())) }},
	}
}

func (r ranger) bounds() (lo, hi *big.Int) {
	bits := uint(8 * r.width)
	if r.signed {
		return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits-1), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
}

func (r ranger) one(pre []byte, a, b *big.Int) (*big.Int, error) {
	withStream(bytes.Repeat(pre, 8)) // wherever the number is taken from, it is made of these
	v := r.draw(a, b)
	if v.Cmp(a) < 0 || v.Cmp(b) >= 0 {
		return nil, bad("range", "Rand%sRange(%v, %v) with random bytes %x gives %v", r.name, a, b, pre, v)
	}
	return v, nil
}

// fast check of 8 bit ranges over every random byte
func (r ranger) full8(w *W, a, b int) error {
	A, B := big.NewInt(int64(a)), big.NewInt(int64(b))
	seen := make([]bool, b-a)
	left := b - a
	for ph := 0; ph < 64 && (ph == 0 || left > 0); ph++ {
		for x := 0; x < 256; x++ {
			pre := repb(byte(x), 8)
			if ph > 0 {
				pre = pre[:1]
			}
			for k := 1; k <= ph; k++ {
				pre = append(pre, byte(x*(2*k+1)+k*ph))
			}
			withStream(pre)
			var v int
			if r.signed {
				v = int(util.RandInt8Range(int8(a), int8(b)))
			} else {
				v = int(util.RandUint8Range(uint8(a), uint8(b)))
			}
			w.transitions++
			if v < a || v >= b {
				_, err := r.one(pre, A, B)
				if err == nil {
					err = bad("range", "Rand%sRange(%v, %v) with random bytes %x gives %v", r.name, A, B, pre, v)
				}
				return err
			}
			if !seen[v-a] {
				seen[v-a] = true
				left--
			}
		}
	}
	if left > 0 {
		for i, s := range seen {
			if !s {
				return bad("reach", "Rand%sRange(%d, %d) never gives %d", r.name, a, b, a+i)
			}
		}
	}
	return nil
}

func checkRand(w *W) {
	plains := []struct {
		n     string
		width int
		draw  func() uint64
	}{
		{"Int8", 1, func() uint64 { return uint64(uint8(util.RandInt8())) }}, {"Uint8", 1, func() uint64 { return uint64(util.RandUint8()) }},
		{"Int16", 2, func() uint64 { return uint64(uint16(util.RandInt16())) }}, {"Uint16", 2, func() uint64 { return uint64(util.RandUint16()) }},
		{"Int32", 4, func() uint64 { return uint64(uint32(util.RandInt32())) }}, {"Uint32", 4, func() uint64 { return uint64(util.RandUint32()) }},
		{"Int64", 8, func() uint64 { return uint64(util.RandInt64()) }}, {"Uint64", 8, func() uint64 { return util.RandUint64() }},
	}
	for _, p := range plains {
		p := p
		w.Case("plain", func() string { return p.n }, func() error { w.Outcome("plain", p.n); return plain(p.width, p.draw) })
	}
	for _, r := range rangers() {
		r := r
		lo, hi := r.bounds()
		if r.width == 1 {
			for a := int(lo.Int64()); a < int(hi.Int64()); a++ {
				for b := a + 1; b <= int(hi.Int64()); b++ {
					a, b := a, b
					w.Case("range8", func() string { return fmt.Sprintf("%s %d %d", r.name, a, b) }, func() error {
						w.Outcome(r.name, a, b)
						return r.full8(w, a, b)
					})
				}
			}
			continue
		}
		// boundary values of the type
		var vs []*big.Int
		add := func(x *big.Int) {
			if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
				for _, y := range vs {
					if y.Cmp(x) == 0 {
						return
					}
				}
				vs = append(vs, x)
			}
		}
		for i := uint(0); i < uint(8*r.width); i++ {
			if i > 3 && i%4 != 0 && i%8 != 7 && w.Quick() {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(d))
				add(x)
				add(new(big.Int).Neg(x))
			}
		}
		for d := int64(0); d < 4; d++ {
			add(new(big.Int).Add(lo, big.NewInt(d)))
			add(new(big.Int).Sub(hi, big.NewInt(d)))
		}
		for i := range vs {
			for j := range vs {
				a, b := vs[i], vs[j]
				if a.Cmp(b) >= 0 {
					continue
				}
				w.Case("range", func() string { return fmt.Sprintf("%s %v %v", r.name, a, b) }, func() error {
					w.Outcome(r.name, a.String(), b.String())
					size := new(big.Int).Sub(b, a)
					small := size.IsInt64() && size.Int64() <= 300
					var raws []*big.Int
					mod := new(big.Int).Lsh(big.NewInt(1), uint(8*r.width))
					push := func(x *big.Int) { raws = append(raws, new(big.Int).Mod(x, mod)) }
					for d := int64(-3); d <= 3; d++ {
						D := big.NewInt(d)
						push(D)
						push(new(big.Int).Add(size, D))
						push(new(big.Int).Add(new(big.Int).Mul(size, big.NewInt(2)), D))
						push(new(big.Int).Add(new(big.Int).Rsh(mod, 1), D))
						push(new(big.Int).Add(a, D))
						push(new(big.Int).Add(b, D))
						k := new(big.Int).Div(new(big.Int).Sub(mod, big.NewInt(1)), size)
						push(new(big.Int).Add(new(big.Int).Mul(k, size), D))
					}
					for i := uint(0); i < uint(8*r.width); i++ {
						push(new(big.Int).Lsh(big.NewInt(1), i))
						push(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(1)))
					}
					seen := map[int64]bool{}
					first, last := false, false
					lastV := new(big.Int).Sub(b, big.NewInt(1))
					try := func(x *big.Int) error {
						pre := make([]byte, r.width)
						x.FillBytes(pre)
						for rev := 0; rev < 2; rev++ {
							v, err := r.one(pre, a, b)
							w.transitions++
							if err != nil {
								return err
							}
							if v.Cmp(a) == 0 {
								first = true
							}
							if v.Cmp(lastV) == 0 {
								last = true
							}
							if small {
								seen[new(big.Int).Sub(v, a).Int64()] = true
							}
							for p, q := 0, len(pre)-1; p < q; p, q = p+1, q-1 {
								pre[p], pre[q] = pre[q], pre[p]
							}
						}
						return nil
					}
					for _, x := range raws {
						if err := try(x); err != nil {
							return err
						}
					}
					if small {
						// evenly spaced over the whole range of the source, and consecutive
						for k := int64(0); k < 2*size.Int64()+2; k++ {
							if err := try(big.NewInt(k)); err != nil {
								return err
							}
							x := new(big.Int).Mul(mod, big.NewInt(2*k+1))
							x.Div(x, big.NewInt(4*size.Int64()+4))
							if err := try(x); err != nil {
								return err
							}
						}
						if int64(len(seen)) != size.Int64() {
							for k := int64(0); k < size.Int64(); k++ {
								if !seen[k] {
									return bad("reach", "Rand%sRange(%v, %v) never gives %v", r.name, a, b, new(big.Int).Add(a, big.NewInt(k)))
								}
							}
						}
					}
					if !first || !last {
						return bad("reach", "Rand%sRange(%v, %v): smallest number reached %v, largest reached %v", r.name, a, b, first, last)
					}
					return nil
				})
			}
		}
		// 16 bit: some ranges over every pair of random bytes
		if r.width == 2 {
			for _, x := range [][2]int64{{0, 1}, {0, 2}, {0, 255}, {0, 256}, {0, 257}, {5, 1000}, {0, 32767}, {100, 32767}, {1, 30000}} {
				for _, neg := range []bool{false, true} {
					if neg && !r.signed {
						continue
					}
					a, b := x[0], x[1]
					if neg {
						a, b = -b, a+3
					}
					w.Case("range16", func() string { return fmt.Sprintf("%s %d %d", r.name, a, b) }, func() error {
						A, B := big.NewInt(a), big.NewInt(b)
						seen := make([]bool, b-a)
						for x := 0; x < 65536; x++ {
							v, err := r.one([]byte{byte(x >> 8), byte(x)}, A, B)
							w.transitions++
							if err != nil {
								return err
							}
							seen[v.Int64()-a] = true
						}
						for i, s := range seen {
							if !s {
								return bad("reach", "Rand%sRange(%d, %d) never gives %d", r.name, a, b, a+int64(i))
							}
						}
						return nil
					})
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C25: conversions

func beBytes(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[n-1-i] = byte(x >> (8 * uint(i)))
	}
	return b
}

func checkConv(w *W) {
	// 64 bit integers and times
	vals := map[uint64]bool{}
	for i := uint(0); i < 64; i++ {
		for d := uint64(0); d < 5; d++ {
			vals[1<<i+d-2] = true
			vals[-(uint64(1)<<i)+d-2] = true
		}
		for a := uint64(0); a < 256; a++ {
			vals[a<<i] = true
			vals[^(a << i)] = true
		}
	}
	for x := 0; x < 65536; x++ {
		vals[uint64(x)<<24] = true
		vals[uint64(x)*0x0001000100010001] = true
	}
	var list []uint64
	for x := range vals {
		list = append(list, x)
	}
	for _, v := range []string{"int"} {
		sortU64(list)
		for _, x := range list {
			x := x
			w.Case(v, func() string { return fmt.Sprintf("%x", x) }, func() error {
				w.Outcome(x)
				w.transitions++
				b := collection.Int64ToByteArray(int64(x))
				if !bytes.Equal(b, beBytes(x, 8)) {
					return bad("int64", "%d converts to %x", int64(x), b)
				}
				if y := collection.ByteArrayToInt64(b); y != int64(x) {
					return bad("int64", "%d comes back as %d", int64(x), y)
				}
				b = collection.Int32ToByteArray(int32(x))
				if !bytes.Equal(b, beBytes(x, 4)) {
					return bad("int32", "%d converts to %x", int32(x), b)
				}
				if y := collection.ByteArrayToInt32(b); y != int32(x) {
					return bad("int32", "%d comes back as %d", int32(x), y)
				}
				b = collection.Uint32ToByteArray(uint32(x))
				if !bytes.Equal(b, beBytes(x, 4)) {
					return bad("uint32", "%d converts to %x", uint32(x), b)
				}
				if y := collection.ByteArrayToUint32(b); y != uint32(x) {
					return bad("uint32", "%d comes back as %d", uint32(x), y)
				}
				t := time.Unix(0, int64(x))
				for _, u := range []time.Time{t, t.UTC(), t.In(time.FixedZone("z", 3600))} {
					k := u
					b = collection.TimeToBytes(&k)
					if !bytes.Equal(b, beBytes(x, 8)) || !k.Equal(t) {
						return bad("time", "%v converts to %x", u, b)
					}
				}
				in := placeIn(&placed, b, 0xee)
				keep := append([]byte{}, in...)
				y, err := collection.BytesToTime(in)
				if err != nil || y == nil || !y.Equal(t) || y.UnixNano() != int64(x) {
					return bad("time", "%d ns comes back as %v, %v", int64(x), y, err)
				}
				if !bytes.Equal(in, keep) {
					return bad("modified", "input modified")
				}
				if y := collection.Int64ToTime(int64(x)); y == nil || !y.Equal(t) {
					return bad("time", "%d ns becomes %v", int64(x), y)
				}
				return nil
			})
		}
	}
	// too few bytes
	for n := 0; n < 8; n++ {
		n := n
		for _, p := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			p := p
			w.Case("short", func() string { return fmt.Sprintf("%d %d", n, p) }, func() error {
				for _, b := range [][]byte{repb(p, n), repb(p, 16)[:n], append(repb(p, n), 1, 2, 3, 4, 5, 6, 7, 8)[:n]} {
					w.transitions++
					if v := collection.ByteArrayToInt64(b); v != 0 {
						return bad("short", "64-bit integer from %d bytes is %d", n, v)
					}
					if n < 4 {
						if v := collection.ByteArrayToInt32(b); v != 0 {
							return bad("short", "32-bit integer from %d bytes is %d", n, v)
						}
						if v := collection.ByteArrayToUint32(b); v != 0 {
							return bad("short", "unsigned integer from %d bytes is %d", n, v)
						}
					}
					if t, err := collection.BytesToTime(b); err == nil {
						return bad("short", "time from %d bytes is %v", n, t)
					}
				}
				return nil
			})
		}
	}
	w.Case("short", func() string { return "nil" }, func() error {
		if collection.ByteArrayToInt64(nil) != 0 || collection.ByteArrayToInt32(nil) != 0 || collection.ByteArrayToUint32(nil) != 0 {
			return bad("short", "integer from nothing is not zero")
		}
		if _, err := collection.BytesToTime(nil); err == nil {
			return bad("short", "time from nothing is not an error")
		}
		return nil
	})
	// big integers
	bigOne := func(x *big.Int) {
		w.Case("bigint", func() string { return x.Text(16) }, func() error {
			w.transitions++
			w.Outcome("big", x.Text(16))
			want := make([]byte, 32)
			x.FillBytes(want)
			y := new(big.Int).Set(x)
			b := collection.BigIntToByteArray(y)
			if !bytes.Equal(b, want) {
				return bad("bigint", "%x converts to %x", x, b)
			}
			if y.Cmp(x) != 0 {
				return bad("modified", "converting %x modifies it to %x", x, y)
			}
			in := placeIn(&placed, b, 0xee)
			z := collection.ByteArrayToBigInt(in)
			if z.Cmp(x) != 0 || !bytes.Equal(in, want) {
				return bad("bigint", "%x comes back as %x", x, z)
			}
			for i := range b {
				b[i] ^= 0xff
			}
			for i := range in {
				in[i] ^= 0xff
			}
			if y.Cmp(x) != 0 || z.Cmp(x) != 0 {
				return bad("modified", "%x shares memory with its bytes", x)
			}
			return nil
		})
	}
	lim := new(big.Int).Lsh(big.NewInt(1), 256)
	for i := uint(0); i <= 256; i++ {
		for d := int64(-3); d <= 3; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(d))
			if x.Sign() >= 0 && x.Cmp(lim) < 0 {
				bigOne(x)
				bigOne(new(big.Int).Sub(new(big.Int).Sub(lim, big.NewInt(1)), x))
			}
		}
	}
	for n := 0; n <= 32; n++ {
		for p := 0; p < 256; p += 5 {
			bigOne(new(big.Int).SetBytes(repb(byte(p), n)))
			bigOne(new(big.Int).SetBytes(fill(n, byte(p))))
			if n > 0 {
				bigOne(new(big.Int).SetBytes(append([]byte{byte(p)}, repb(0, n-1)...)))
			}
		}
	}
	// secrets and digests
	for n := 0; n <= 200; n++ {
		for _, p := range []byte{0, 1, 'a', 0xff} {
			n, p := n, p
			w.Case("bytes", func() string { return fmt.Sprintf("%d %d", n, p) }, func() error {
				src := fill(n, p)
				if p == 0 {
					src = repb(0, n)
				}
				w.Outcome("bytes", src)
				in := placeIn(&placed, src, 0xee)
				whole := placed[:16+n+200]
				keep := append([]byte{}, whole...)
				want := append(append([]byte{}, src...), make([]byte, 16)...)[:16]
				if n > 16 {
					want = src[n-16:]
				}
				w.transitions++
				if got := util.AESPad(in); !bytes.Equal(got, want) {
					return bad("pad", "%x is padded to %x", src, got)
				}
				h1 := sha256.Sum256(src)
				h2 := sha256.Sum256(h1[:])
				h3 := md5.Sum(src)
				a, b, c := util.SumSHA256(in), util.SumSHA256d(in), util.SumMD5(in)
				if !bytes.Equal(a, h1[:]) {
					return bad("digest", "SHA256(%x) = %x", src, a)
				}
				if !bytes.Equal(b, h2[:]) {
					return bad("digest", "SHA256d(%x) = %x", src, b)
				}
				if !bytes.Equal(c, h3[:]) {
					return bad("digest", "MD5(%x) = %x", src, c)
				}
				x, y, z := util.SumSHA256(append([]byte{}, 'x')), util.SumSHA256d([]byte{'y'}), util.SumMD5([]byte{'z'})
				_, _, _ = x, y, z
				if !bytes.Equal(a, h1[:]) || !bytes.Equal(b, h2[:]) || !bytes.Equal(c, h3[:]) {
					return bad("digest", "a digest changes with the next one")
				}
				if !bytes.Equal(whole, keep) {
					return bad("modified", "input or its surroundings modified")
				}
				return nil
			})
		}
	}
}

func sortU64(v []uint64) {
	// radix order is enough: any fixed order will do
	m := map[uint64]bool{}
	for _, x := range v {
		m[x] = true
	}
	if len(v) < 2 {
		return
	}
	quickU64(v)
}

func quickU64(v []uint64) {
	if len(v) < 2 {
		return
	}
	p := v[len(v)/2]
	i, j := 0, len(v)-1
	for i <= j {
		for v[i] < p {
			i++
		}
		for v[j] > p {
			j--
		}
		if i <= j {
			v[i], v[j] = v[j], v[i]
			i++
			j--
		}
	}
	quickU64(v[:j+1])
	quickU64(v[i:])
}

func init() {
	register("C13", checkInfo{level: "exploration",
		rule:  "tables built from every ordered list of up to 4 (thorough 5) keys and every subset of a universe of 14 keys (empty, multi-part, prefixes, permuted parts, long), every list size up to 400 (2000) and around powers of two up to 32769 (100000) for five key families, verified by key and by hash, in several key representations; all present and absent keys looked up in the built and the decoded table; distinct outcomes = distinct encodings",
		assum: []string{"keys are distinct (precondition)", "verification by hash is a bloom filter: absent keys whose 32-bit hash collides would be found; none of the enumerated ones does", "no set of keys crafted to collide under every Murmur seed"}}, checkMPH)
	register("C14", checkInfo{level: "exploration",
		rule:  "all pairs of ledger times over every power of two neighbourhood and every single byte value, all pairs of raft times over boundary components, all pairs across kinds, six queries each; encodings with nine tails, all truncations, all 256 magics; distinct outcomes = distinct encodings",
		assum: nil}, checkTimes)
	register("C15", checkInfo{level: "exploration",
		rule:  "all 256 magic bytes x all lengths up to 231 x three fillings x three memory placements, with copies and buffer reuse; distinct outcomes = distinct accepted ids",
		assum: nil}, checkIDs)
	register("C16", checkInfo{level: "exploration",
		rule:  "every combination of domain, tablet and buckets over boundary lengths and counts, low bits, sizes around the limit; nine tails, all truncations in three placements, re-encoding of copies of copies; distinct outcomes = distinct encodings",
		assum: []string{"schemes can only be built from an encoding (the type has no setters)"}}, checkSchemes)
	register("C17", checkInfo{level: "exploration",
		rule:  "all byte strings up to 2 bytes (3 bytes with a stride; thorough: all), all words over {0,1,57,58,128,255} up to 6 (8), all counts of leading zeros with long strings, powers of 58; all texts up to 3 characters, long runs; every foreign character at every position; against an independent long-division reference; distinct outcomes = distinct inputs",
		assum: nil}, checkBase58)
	register("C23", checkInfo{level: "exploration",
		rule:  "every 8-bit range with every random byte, every 16-bit random value for selected ranges, all boundary ranges of the wider types with boundary random values, reachability of every number of small ranges and both ends of all; plain numbers as a permutation of exactly the random bytes drawn; distinct outcomes = distinct ranges",
		assum: []string{"crypto/rand.Reader supplied by the harness", "minimum below maximum (precondition)"}}, checkRand)
	register("C25", checkInfo{level: "exploration",
		rule:  "integers and times over every power of two neighbourhood, every byte at every shift and 131072 patterns; big integers of every byte length and around every power of two; too short inputs; secrets and messages of every length up to 200 in a larger buffer; distinct outcomes = distinct inputs",
		assum: []string{"times representable in int64 nanoseconds"}}, checkConv)
}
