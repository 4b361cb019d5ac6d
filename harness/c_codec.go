package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
	"time"

	"../../repo/src/util"
)

// bytes that may follow an encoding
func tails(enc []byte) [][]byte {
	return [][]byte{nil, {0}, {1}, {0x80}, {0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {1, 'x', 1, 'y'}, repb(0, 70), enc}
}

func join(a, b []byte) []byte { return append(append(make([]byte, 0, len(a)+len(b)), a...), b...) }

// cuts: the lengths to which an encoding of n bytes is truncated
func cuts(n int) []int {
	var c []int
	if n <= 400 {
		for i := 1; i < n; i++ {
			c = append(c, i)
		}
		return c
	}
	for i := 1; i < 40; i++ {
		c = append(c, i, n-i)
	}
	for _, i := range []int{127, 128, 129, 130, 255, 256, 257, 258, 259, 260, 300, n / 2, n - 64, n - 65, n - 72, n - 73} {
		if i < n {
			c = append(c, i)
		}
	}
	return c
}

// three ways to present the first n bytes of full: exactly sized, inside a
// larger array that goes on with the real rest, and with other bytes behind
func truncations(full []byte, n int) [][]byte {
	a := append([]byte{}, full[:n]...)
	b := append([]byte{}, full...)[:n]
	c := append(append(make([]byte, 0, n+64), full[:n]...), repb(1, 64)...)[:n]
	return [][]byte{a[:n:n], b, c}
}

// inside tells whether s lies within buf (same memory)
func inside2(s, buf []byte) bool {
	if len(s) == 0 {
		return true
	}
	for i := range buf {
		if &buf[i] == &s[0] {
			return i+len(s) <= len(buf)
		}
	}
	return false
}

func init() {
	register("C07", checkInfo{level: "exploration",
		rule:  "encode then decode every integer around every power of two (all 16-bit values in full), every byte string length up to 700 and around every boundary of the length code, each followed by nine different tails; all truncations; all declared lengths around the present length and around 2^k; distinct outcomes = distinct encodings",
		assum: []string{"empty input decodes to an empty result consuming nothing (documented)"}}, checkVar)
	register("C08", checkInfo{level: "exploration",
		rule:  "every key of up to 3 (thorough 4) parts over a boundary alphabet, every part length up to 300 and around every limit, every part count around the limits, in every representation, with nine tails, all truncations; prefix-freeness over the whole set of encodings; distinct outcomes = distinct encodings",
		assum: []string{"key parts are not empty (precondition of building a key)"}}, checkKeyCodec)
	register("C09", checkInfo{level: "exploration",
		rule:  "every value tree up to depth 3 of a bounded grammar (primitives, arrays up to 3 elements, record lists up to 2 records over all component combinations), chains of nesting, all boundary sizes, each decoded with nine tails and accessed in every order of elements (up to 4 elements: all permutations), all truncations; distinct outcomes = distinct encodings",
		assum: []string{"empty arrays and empty lists are the nil value on the wire (documented)"}}, checkValueCodec)
	register("C10", checkInfo{level: "exploration",
		rule:  "every combination of key, value, scheme, timestamp and signature from boundary sets, in every key representation and setter, each decoded with nine tails, all truncations, all boundary sizes of key, value and scheme; distinct outcomes = distinct encodings",
		assum: []string{"a signature is encoded only together with a timestamp (documented by the encoder)", "signature numbers below 2^256", "timestamps representable in nanoseconds"}}, checkRecordCodec)
}

// ---------------------------------------------------------------------------

func uvals() []uint64 {
	m := map[uint64]bool{}
	for i := uint64(0); i < 65540; i++ {
		m[i] = true
	}
	for k := uint(0); k < 64; k++ {
		for d := -3; d <= 3; d++ {
			m[(uint64(1)<<k)+uint64(int64(d))] = true
			m[(uint64(3)<<k)+uint64(int64(d))] = true
			m[^(uint64(1)<<k)+uint64(int64(d))] = true
		}
	}
	for b := uint64(0); b < 256; b++ { // one byte value at each place
		for s := uint(0); s < 64; s += 7 {
			m[b<<s] = true
		}
	}
	var r []uint64
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func checkVar(w *W) {
	type held struct {
		enc, copy []byte
	}
	var hold []held
	var us, ss []string
	us, ss = []string{}, []string{}
	for _, u := range uvals() {
		u := u
		w.Case("uint", func() string { return fmt.Sprint(u) }, func() error {
			enc := util.EncodeUvarint64(u)
			if len(hold) < 5000 {
				hold = append(hold, held{enc, append([]byte{}, enc...)})
			}
			us = append(us, string(enc))
			w.Outcome("u", enc)
			w.transitions++
			for _, t := range tails(enc) {
				in := join(enc, t)
				keep := append([]byte{}, in...)
				v, n, err := util.DecodeUvarint64(in)
				if err != nil || v != u || n != len(enc) {
					return bad("uint", "%d encoded as %x followed by %x decodes to %d, %d bytes, %v", u, enc, t, v, n, err)
				}
				if !bytes.Equal(in, keep) {
					return bad("modified", "decoding modified its input")
				}
			}
			return nil
		})
		i := int64(u)
		w.Case("int", func() string { return fmt.Sprint(i) }, func() error {
			for _, x := range []int64{i, -i} {
				enc := util.EncodeVarint64(x)
				if len(hold) < 5000 {
					hold = append(hold, held{enc, append([]byte{}, enc...)})
				}
				ss = append(ss, string(enc))
				w.Outcome("i", enc)
				w.transitions++
				for _, t := range tails(enc) {
					v, n, err := util.DecodeVarint64(join(enc, t))
					if err != nil || v != x || n != len(enc) {
						return bad("int", "%d encoded as %x followed by %x decodes to %d, %d bytes, %v", x, enc, t, v, n, err)
					}
				}
			}
			return nil
		})
	}
	var lens []int
	for n := 0; n <= 700; n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{1023, 1024, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 1<<21 - 1, 1 << 21, 1<<21 + 1} {
		lens = append(lens, n)
	}
	for _, n := range lens {
		for pat := 0; pat < 4; pat++ {
			n, pat := n, pat
			w.Case("bytes", func() string { return fmt.Sprintf("length %d pattern %d", n, pat) }, func() error {
				data := make([]byte, n)
				for i := range data {
					data[i] = []byte{0, 0xff, 0x80, byte(i*31 + n)}[pat]
				}
				keep := append([]byte{}, data...)
				if n == 0 && pat == 1 {
					data = nil
				}
				enc := util.EncodeVarchar(data)
				ecopy := append([]byte{}, enc...)
				if n < 70000 {
					w.Outcome("b", enc)
				}
				for ti, t := range tails(enc) {
					if n > 5000 && ti != 0 && ti != 5 {
						continue
					}
					in := join(enc, t)
					v, k, err := util.DecodeVarchar(in)
					w.transitions++
					if err != nil || !bytes.Equal(v, keep) || k != len(enc) {
						return bad("bytes", "byte string %s (length %d) followed by %x decodes to %s, %d of %d bytes, %v", showB(keep), n, showB(t), showB(v), k, len(enc), err)
					}
					if n < 5000 && !inside2(v, in) && len(v) > 0 {
						// a copy is fine as well
						w.Note("copied_content", 1)
					}
				}
				for _, c := range cuts(len(enc)) {
					for _, in := range truncations(enc, c) {
						keepIn := append([]byte{}, in...)
						v, k, err := util.DecodeVarchar(in)
						w.transitions++
						if err == nil {
							return bad("truncated", "byte string of length %d cut to %d bytes decodes to %s (%d bytes) instead of an error", n, c, showB(v), k)
						}
						if !bytes.Equal(keepIn, in) {
							return bad("modified", "decoding modified its input")
						}
					}
				}
				// the encoding does not share the data
				for i := range data {
					data[i] ^= 0x55
				}
				if !bytes.Equal(enc, ecopy) {
					return bad("shared", "the encoding of a byte string of length %d changes with the data", n)
				}
				if n < 2000 {
					hold = append(hold, held{enc, ecopy})
				}
				return nil
			})
		}
	}
	// declared length against present bytes
	decl := uvals()
	for di := len(decl) - 1; di >= 0; di-- {
		d := decl[di]
		if d > 700 && d < 60000 {
			continue
		}
		w.Case("declared", func() string { return fmt.Sprint(d) }, func() error {
			hdr := util.EncodeUvarint64(d)
			for _, have := range []int{0, 1, 2, 3, 10, 126, 127, 128, 129, 254, 255, 256, 300, 600} {
				back := append(append([]byte{}, hdr...), repb(0x33, have+70)...)
				in := back[:len(hdr)+have]
				v, k, err := util.DecodeVarchar(in)
				w.transitions++
				if d > uint64(have) {
					if err == nil {
						return bad("declared", "declared length %d with %d bytes present decodes to %d bytes", d, have, len(v))
					}
				} else if err != nil || k != len(hdr)+int(d) || !bytes.Equal(v, back[len(hdr):len(hdr)+int(d)]) {
					return bad("declared", "declared length %d with %d bytes present: %d bytes, %d consumed, %v", d, have, len(v), k, err)
				}
			}
			return nil
		})
	}
	// integers cut short, and integers of more than 64 bits
	w.Exec("badint", func() string { return "all" }, func() error {
		rej := func(in []byte, what string) error {
			for _, b := range truncations(append(append([]byte{}, in...), 1, 2, 3), len(in)) {
				w.transitions++
				if v, n, err := util.DecodeUvarint64(b); err == nil {
					return bad("badint", "%s %x decodes to %d (%d bytes) instead of an error", what, b, v, n)
				}
				if v, n, err := util.DecodeVarint64(b); err == nil {
					return bad("badint", "%s %x decodes as signed to %d (%d bytes) instead of an error", what, b, v, n)
				}
				if v, n, err := util.DecodeVarchar(b); err == nil {
					return bad("badint", "byte string length %s %x decodes to %x (%d bytes) instead of an error", what, b, v, n)
				}
			}
			return nil
		}
		for _, set := range [][]string{us, ss} {
			for _, e := range set {
				for c := 1; c < len(e); c++ {
					if err := rej([]byte(e[:c]), "the integer cut to"); err != nil {
						return err
					}
				}
			}
		}
		for _, c := range []byte{0x80, 0x81, 0xff} {
			for last := 2; last < 256; last++ {
				for more := 0; more < 4; more++ {
					if err := rej(append(append(repb(c, 9), byte(last)), repb(byte(last), more)...), "the oversized integer"); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	// encodings handed out before are unchanged, and no encoding is a prefix of another
	w.Exec("held", func() string { return "all" }, func() error {
		for _, h := range hold {
			if !bytes.Equal(h.enc, h.copy) {
				return bad("held", "an encoding handed out as %x is now %x", h.copy, h.enc)
			}
		}
		for _, set := range [][]string{us, ss} {
			if err := prefixFree(set); err != nil {
				return err
			}
		}
		return nil
	})
}

// prefixFree: no string of the set is a proper prefix of another
func prefixFree(set []string) error {
	s := append([]string{}, set...)
	sort.Strings(s)
	for i := 0; i+1 < len(s); i++ {
		a, b := s[i], s[i+1]
		if len(a) < len(b) && b[:len(a)] == a {
			return bad("prefix", "encoding %x is a prefix of encoding %x", a, b)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------

func codecKeys(quick bool) [][][]byte {
	alpha := [][]byte{{0}, {1}, {2}, {0x7f}, {0x80}, {0xff}, {0, 0}, {1, 1}, {1, 2}, {2, 1}, {0x80, 1}, {0xff, 0xff}, {1, 1, 1}}
	n := 3
	if !quick {
		n = 4
	}
	ls := keyLists(n, alpha)
	for n := 1; n <= 300; n++ {
		ls = append(ls, [][]byte{repb('a', n)}, [][]byte{{1}, repb(0x80, n)}, [][]byte{repb(0, n), repb(0xff, n)})
	}
	for _, n := range []int{1000, 2000, 4000, 4080, 4085, 4088, 4089, 4090, 4091, 4092, 4093} {
		ls = append(ls, [][]byte{repb('b', n)})
	}
	for n := 4; n <= 300; n++ {
		ls = append(ls, many(n, []byte{byte(n)}))
	}
	for _, n := range []int{500, 1000, 1360, 1364, 2000, 2040, 2046, 2047} {
		ls = append(ls, many(n, []byte{7}))
	}
	return ls
}

func many(n int, b []byte) (r [][]byte) {
	for i := 0; i < n; i++ {
		r = append(r, b)
	}
	return
}

func checkKeyCodec(w *W) {
	var all []string
	seen := map[string]string{}
	one := func(subs [][]byte, full bool) error {
		k := buildKey(subs)
		if err := k.Encode(nil); err != nil {
			return bad("encode", "key %s: %v", subsString(subs), err)
		}
		enc := append([]byte{}, k.Buf()...)
		if len(enc) > 4096 {
			return bad("limit", "key %s of %d encoded bytes is accepted", subsString(subs), len(enc))
		}
		if !k.IsEncoded() || k.EstBufSize() <= 0 {
			return bad("encode", "key %s is not encoded after encoding", subsString(subs))
		}
		w.Outcome(enc)
		if o, ok := seen[string(enc)]; ok && o != subsString(subs) {
			return bad("same", "keys %s and %s have the same encoding %s", o, subsString(subs), showB(enc))
		}
		if full {
			seen[string(enc)] = subsString(subs)
			all = append(all, string(enc))
		}
		for _, t := range tails(enc) {
			in := join(enc, t)
			keep := append([]byte{}, in...)
			m, n, err := util.NewMappedKey(in)
			w.transitions++
			if err != nil {
				return bad("decode", "key %s (%s followed by %s): %v", subsString(subs), showB(enc), showB(t), err)
			}
			if n != len(enc) {
				return bad("consumed", "key %s (%s followed by %s): %d of %d bytes consumed", subsString(subs), showB(enc), showB(t), n, len(enc))
			}
			if !eqSubs(m.Key(), subs) || !m.Equal(k) || !k.Equal(m) || m.IsEmpty() != (len(subs) == 0) || !m.IsDecoded() {
				return bad("content", "key %s decodes to %s", subsString(subs), subsString(m.Key()))
			}
			if !m.IsEncoded() {
				return bad("reencode", "key %s decoded from %s claims not to be encoded", subsString(subs), showB(enc))
			}
			for i := range subs {
				if !bytes.Equal(m.SubKeyAt(i), subs[i]) {
					return bad("content", "key %s: part %d decodes to %s", subsString(subs), i, showB(m.SubKeyAt(i)))
				}
			}
			if err := m.Encode(nil); err != nil {
				return bad("reencode", "decoded key %s: %v", subsString(subs), err)
			}
			if !bytes.Equal(m.Buf(), enc) {
				return bad("reencode", "key %s encoded as %s comes back as %s (followed by %s)", subsString(subs), showB(enc), showB(m.Buf()), showB(t))
			}
			cc, err := m.CopyConstruct()
			if err != nil {
				return bad("reencode", "key %s: copy: %v", subsString(subs), err)
			}
			if err := cc.Encode(nil); err != nil || !bytes.Equal(cc.Buf(), enc) {
				return bad("reencode", "key %s: its modifiable copy encodes to %s, %v", subsString(subs), showB(cc.Buf()), err)
			}
			if !bytes.Equal(in, keep) {
				return bad("modified", "decoding modified its input")
			}
		}
		for _, c := range cuts(len(enc)) {
			for _, in := range truncations(enc, c) {
				m, n, err := util.NewMappedKey(in)
				w.transitions++
				if err == nil {
					return bad("truncated", "key %s cut from %d to %d bytes decodes to %s (%d bytes)", subsString(subs), len(enc), c, subsString(m.Key()), n)
				}
			}
		}
		// encoding again gives the same bytes and leaves the earlier ones alone
		b := k.Buf()
		if err := k.Encode(nil); err != nil || !bytes.Equal(k.Buf(), enc) || !bytes.Equal(b, enc) {
			return bad("again", "key %s: encoding again gives %s, %v", subsString(subs), showB(k.Buf()), err)
		}
		return nil
	}
	for i, l := range codecKeys(w.Quick()) {
		l, i := l, i
		w.Case("key", func() string { return fmt.Sprintf("%d: %s", i, subsString(l)) }, func() error { return one(l, true) })
	}
	w.Exec("prefixfree", func() string { return "all" }, func() error { return prefixFree(all) })
	// all short encodings in one process (prefix-freeness over the whole set)
	w.Case("prefixfree-all", func() string { return "short" }, func() error {
		var s []string
		for _, l := range codecKeys(true) {
			if len(l) <= 3 {
				k := buildKey(l)
				if err := k.Encode(nil); err != nil {
					return err
				}
				s = append(s, string(k.Buf()))
			}
		}
		u := append([]string{}, s...)
		sort.Strings(u)
		d := 0
		for i := 0; i+1 < len(u); i++ {
			if u[i] == u[i+1] {
				d++
			}
		}
		// the list of keys itself contains a few keys twice
		ks := map[string]bool{}
		n := 0
		for _, l := range codecKeys(true) {
			if len(l) <= 3 {
				x := fmt.Sprintf("%x", l)
				if ks[x] {
					n++
				}
				ks[x] = true
			}
		}
		if d != n {
			return bad("same", "%d pairs of different keys share an encoding", d-n)
		}
		return prefixFree(s)
	})
	// other representations encode alike
	for i, l := range orderKeys(w.Quick()) {
		l, i := l, i
		w.Case("representations", func() string { return fmt.Sprintf("%d: %s", i, subsString(l)) }, func() error {
			var first []byte
			for _, r := range keyReps() {
				k := r.mk(l)
				if k == nil {
					continue
				}
				if err := k.Encode(nil); err != nil {
					return bad("encode", "key %s (%s): %v", subsString(l), r.name, err)
				}
				w.transitions++
				if first == nil {
					first = append([]byte{}, k.Buf()...)
				} else if !bytes.Equal(first, k.Buf()) {
					return bad("reencode", "key %s encodes to %s as %s, otherwise to %s", subsString(l), showB(k.Buf()), r.name, showB(first))
				}
			}
			return nil
		})
	}
	// the size limit, approached in every way
	for _, np := range []int{1, 2, 3, 127, 128, 129, 1300} {
		for total := 4085; total <= 4107; total++ {
			np, total := np, total
			w.Case("limit", func() string { return fmt.Sprintf("%d parts, about %d bytes", np, total) }, func() error {
				// np-1 parts of one byte and a last part that fills up
				subs := many(np-1, []byte{'p'})
				hdr := 1
				if np > 127 {
					hdr = 2
				}
				rest := total - hdr - 2*(np-1)
				last := rest - 1
				if last > 127 {
					last = rest - 2
				}
				if last <= 0 {
					return nil
				}
				for pos := 0; pos < 2; pos++ {
					var s [][]byte
					if pos == 0 {
						s = append(append([][]byte{}, subs...), repb('q', last))
					} else {
						s = append([][]byte{repb('q', last)}, subs...)
					}
					ll := 1
					if last > 127 {
						ll = 2
					}
					size := hdr + 2*(np-1) + ll + last
					k := buildKey(s)
					err := k.Encode(nil)
					w.transitions++
					if size > 4096 && err == nil {
						return bad("limit", "a key of %d encoded bytes in %d parts is accepted", size, np)
					}
					if size > 4096 && k.IsEncoded() {
						return bad("limit", "a refused key claims to be encoded")
					}
					if size <= 4096 {
						if err != nil {
							return bad("limit", "a key of %d encoded bytes in %d parts is refused: %v", size, np, err)
						}
						if len(k.Buf()) != size {
							w.Note("other_wire_format", 1)
						}
						if err := one(s, false); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	for _, n := range []int{2047, 2048, 2049, 4095, 4096, 5000, 70000} {
		n := n
		w.Case("limit-parts", func() string { return fmt.Sprint(n) }, func() error {
			k := buildKey(many(n, []byte{1}))
			err := k.Encode(nil)
			if (err == nil) != (2+2*n <= 4096) && n != 70000 || n == 70000 && err == nil {
				return bad("limit", "a key of %d parts of one byte: %v", n, err)
			}
			k = buildKey([][]byte{repb(1, n)})
			err = k.Encode(nil)
			if (err == nil) != (n <= 4093) {
				return bad("limit", "a key of one part of %d bytes: %v", n, err)
			}
			return nil
		})
	}
}

// ---------------------------------------------------------------------------

var (
	bigMax = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	big248 = new(big.Int).Lsh(big.NewInt(1), 248)
	big1   = big.NewInt(1)
	bigMid = new(big.Int).SetBytes(append([]byte{0, 0, 1, 2, 3}, repb(0xee, 20)...))
)

// smallRecs: all combinations of present and absent components
func smallRecs() []*rec {
	var rs []*rec
	for _, k := range [][][]byte{nil, parts("a"), parts("a", "bc")} {
		for _, v := range []*val{nil, prim('v'), arr(prim(1), prim())} {
			for _, s := range []*val{nil, prim('s')} {
				for _, ts := range []*int64{nil, i64(1), i64(-1)} {
					for _, sig := range []bool{false, true} {
						if sig && (ts == nil || *ts != 1) {
							continue
						}
						r := &rec{key: k, value: v, scheme: s, ts: ts}
						if sig {
							r.r, r.s = bigMid, big1
						}
						rs = append(rs, r)
					}
				}
			}
		}
	}
	return rs
}

// valueTrees enumerates the value trees of the bounded grammar.
func valueTrees(quick bool) []*val {
	l0 := []*val{primB(nil), prim(0), prim('A', 'B')}
	var v1 []*val
	// arrays up to 3 elements
	level := [][]*val{{}}
	for n := 0; n <= 3; n++ {
		for _, p := range level {
			v1 = append(v1, arr(p...))
		}
		var next [][]*val
		for _, p := range level {
			for _, x := range l0 {
				next = append(next, append(append([]*val{}, p...), x))
			}
		}
		level = next
	}
	rs := smallRecs()
	for _, r := range rs {
		v1 = append(v1, list(r))
	}
	half := rs
	if quick {
		half = nil
		for i, r := range rs {
			if i%3 == 0 {
				half = append(half, r)
			}
		}
	}
	for _, r := range half {
		for _, q := range half {
			v1 = append(v1, list(r, q))
		}
	}
	all := append(append([]*val{}, l0...), v1...)
	// depth 2 and 3
	base := []*val{prim(), prim(0), prim('A', 'B'), arr(), arr(prim()), arr(prim(7)), arr(prim(1), prim(2)), arr(prim(), prim(9), prim()),
		list(rs[0]), list(rs[len(rs)-1]), list(rs[5], rs[20]), list(rs[0], rs[0], rs[40])}
	var v2 []*val
	for _, a := range base {
		v2 = append(v2, arr(a))
		for _, b := range base {
			v2 = append(v2, arr(a, b))
			for _, c := range base {
				if !quick || (len(base)+len(a.kids)+len(b.recs)+len(c.kids))%2 == 0 {
					v2 = append(v2, arr(a, b, c))
				}
			}
		}
	}
	for i, a := range base {
		for j, b := range base {
			v2 = append(v2, list(&rec{value: a, scheme: b}, &rec{key: parts("k"), value: b}))
			if i < j {
				v2 = append(v2, list(&rec{key: parts("k"), value: a, ts: i64(5)}, &rec{scheme: b}, &rec{}))
			}
		}
	}
	all = append(all, v2...)
	n3 := 1
	if quick {
		n3 = 7
	}
	for i, a := range v2 {
		if i%n3 == 0 {
			all = append(all, arr(a), arr(prim('x'), a, prim('y')), list(&rec{value: a}, &rec{key: parts("z"), scheme: a}))
		}
	}
	// chains of nesting
	c, d := prim(1), prim(2)
	for i := 1; i <= 60; i++ {
		c = arr(c)
		d = list(&rec{key: parts("n"), value: d}, &rec{value: prim(byte(i))})
		all = append(all, c, arr(prim(3), c, c))
		if i <= 12 {
			all = append(all, d, arr(d, prim(4)))
		}
	}
	return all
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// orders: access orders for containers, all permutations for up to 4 elements
func orders(v *val, quick bool) []orderFn {
	os := []orderFn{forward, backward, inside}
	n := len(v.kids) + len(v.recs)
	if n > 1 && n <= 4 {
		for _, p := range permutations(n) {
			p := p
			os = append(os, func(k int) []int {
				if k == n {
					return p
				}
				return backward(k)
			})
		}
	}
	return os
}

func (w *W) valueCase(v *val, quick bool) error {
	x := v.build()
	if err := x.Encode(nil); err != nil {
		return bad("encode", "value %v: %v", v, err)
	}
	enc := append([]byte{}, x.Buf()...)
	w.Outcome(enc)
	if !x.IsEncoded() {
		return bad("encode", "value %v is not encoded after encoding", v)
	}
	// the built object still shows its content
	if err := match(v, x, forward); err != nil {
		return bad("built", "after encoding: %v", err)
	}
	big := len(enc) > 3000
	for ti, t := range tails(enc) {
		if big && ti%4 != 0 {
			continue
		}
		for oi, ord := range orders(v, quick) {
			if ti > 1 && oi > 1 {
				break
			}
			in := join(enc, t)
			keep := append([]byte{}, in...)
			m, n, err := util.NewStandardMappedValue(in)
			w.transitions++
			if err != nil {
				return bad("decode", "value %v encoded as %s, followed by %s: %v", v, showB(enc), showB(t), err)
			}
			if n != len(enc) || !bytes.Equal(m.Buf(), enc) {
				return bad("consumed", "value %v, followed by %s: %d of %d bytes consumed", v, showB(t), n, len(enc))
			}
			if err := match(v, m, ord); err != nil {
				return bad(err.(*caseError).sig, "value %v decoded from %s (access order %d): %v", v, showB(enc), oi, err)
			}
			if !m.IsDecoded() || !m.IsEncoded() {
				return bad("decode", "decoded value claims decoded %v, encoded %v", m.IsDecoded(), m.IsEncoded())
			}
			if ti == 0 && oi == 0 {
				c, err := m.CopyConstruct()
				if err != nil {
					return bad("reencode", "value %v: %v", v, err)
				}
				if err := match(v, c.(util.IValue), forward); err != nil {
					return bad("reencode", "modifiable copy: %v", err)
				}
				if err := c.Encode(nil); err != nil || !bytes.Equal(c.Buf(), enc) {
					return bad("reencode", "value %v encoded as %s re-encodes to %s, %v", v, showB(enc), showB(c.Buf()), err)
				}
			}
			if !bytes.Equal(in, keep) {
				return bad("modified", "decoding or accessing modified the input")
			}
		}
	}
	for _, c := range cuts(len(enc)) {
		if big && c%5 != 0 {
			continue
		}
		for _, in := range truncations(enc, c) {
			m, _, err := util.NewStandardMappedValue(in)
			w.transitions++
			if err == nil {
				err = walk(m)
			}
			if err == nil {
				return bad("truncated", "value %v encoded as %s cut to %d of %d bytes is accepted", v, showB(enc), c, len(enc))
			}
		}
	}
	return nil
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*13 + seed
	}
	return b
}

func checkValueCodec(w *W) {
	for i, v := range valueTrees(w.Quick()) {
		v, i := v, i
		w.Case("tree", func() string { return fmt.Sprintf("%d: %v", i, v) }, func() error { return w.valueCase(v, w.Quick()) })
	}
	// primitive lengths
	var lens []int
	for n := 0; n <= 600; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 4095, 4096, 16383, 16384, 32767, 32768, 57343, 57344, 57345, 65534, 65535)
	for _, n := range lens {
		n := n
		w.Case("primitive", func() string { return fmt.Sprint(n) }, func() error { return w.valueCase(primB(fill(n, byte(n))), true) })
		if n <= 600 {
			w.Case("element", func() string { return fmt.Sprint(n) }, func() error {
				if err := w.valueCase(arr(prim(1), primB(fill(n, 3)), prim(2, 2)), true); err != nil {
					return err
				}
				return w.valueCase(list(&rec{key: parts("a"), value: primB(fill(n, 5))}, &rec{scheme: primB(fill(n, 6))}), true)
			})
		}
	}
	for _, n := range lens[590:] {
		n := n
		// content of a container around the boundaries of its length code
		for d := -12; d <= 3; d++ {
			if n+d < 1 || n < 4000 && n != 600 {
				continue
			}
			d := d
			w.Case("content", func() string { return fmt.Sprintf("%d%+d", n, d) }, func() error {
				v := arr(primB(fill(n+d, 1)))
				return w.sizedValue(v)
			})
		}
	}
	for n := 235; n <= 262; n++ {
		n := n
		w.Case("content", func() string { return fmt.Sprint(n) }, func() error { return w.sizedValue(arr(primB(fill(n, 1)))) })
		w.Case("content-list", func() string { return fmt.Sprint(n) }, func() error { return w.sizedValue(list(&rec{value: primB(fill(n, 1))})) })
	}
	for n := 65515; n <= 65540; n++ {
		n := n
		w.Case("content", func() string { return fmt.Sprint(n) }, func() error { return w.sizedValue(arr(primB(fill(n-300, 1)), primB(fill(295, 2)))) })
		w.Case("content-list", func() string { return fmt.Sprint(n) }, func() error {
			return w.sizedValue(list(&rec{value: primB(fill(n-30000, 1))}, &rec{value: primB(fill(29990, 2))}))
		})
	}
	// element counts
	for n := 1; n <= 300; n++ {
		n := n
		w.Case("count", func() string { return fmt.Sprint(n) }, func() error {
			var k []*val
			var r []*rec
			for i := 0; i < n; i++ {
				k = append(k, primB(fill(i%3, byte(i))))
				r = append(r, &rec{key: parts(fmt.Sprint(i))})
			}
			if err := w.valueCase(arr(k...), true); err != nil {
				return err
			}
			return w.valueCase(list(r...), true)
		})
	}
	// children of every size among siblings
	top := 30
	if !w.Quick() {
		top = 600
	}
	for n := 1; n <= 600; n++ {
		n := n
		switch n {
		case 60, 61, 62, 63, 64, 65, 80, 81, 82, 84, 85, 86, 120, 124, 125, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513:
		default:
			if n > top {
				continue
			}
		}
		w.Case("sibling", func() string { return fmt.Sprint(n) }, func() error {
			var k []*val
			var r []*rec
			for i := 0; i < n; i++ {
				k = append(k, primB(fill(i%3, byte(i))))
				r = append(r, &rec{key: parts(fmt.Sprint(i))})
			}
			for _, x := range []*val{primB(fill(n, 3)), arr(k...), list(r...), arr(arr(k...), prim(1)), list(&rec{key: parts("a"), value: arr(k...)}, &rec{value: prim(4)})} {
				for _, v := range []*val{arr(x, prim(1), prim(2)), arr(prim(1), x, prim(2), x), arr(prim(1), arr(x, prim(5)), prim(2)),
					list(&rec{value: x}, &rec{key: parts("b")}, &rec{value: x, scheme: prim(7)}, &rec{key: parts("c")}),
					list(&rec{key: parts("b"), value: arr(prim(1), x, prim(2))}, &rec{key: parts("c")}, &rec{value: x})} {
					if err := w.valueCase(v, true); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	for _, n := range []int{10000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072} {
		n := n
		w.Case("count-limit", func() string { return fmt.Sprint(n) }, func() error {
			a, l := util.NewValueArray(), util.NewRecordList()
			for i := 0; i < n; i++ {
				a.Append(util.NewPrimitive(nil))
				l.Append(util.NewRecord())
			}
			for _, x := range []util.IValue{a, l} {
				err := x.Encode(nil)
				w.transitions++
				if n > 65535 {
					if err == nil {
						return bad("limit", "a container of %d elements is encoded", n)
					}
					if x.IsEncoded() {
						return bad("limit", "a refused container claims to be encoded")
					}
					continue
				}
				if err != nil {
					return bad("limit", "a container of %d empty elements is refused: %v", n, err)
				}
				m, k, err := util.NewStandardMappedValue(join(x.Buf(), []byte{1, 2, 3}))
				if err != nil || k != len(x.Buf()) || int(m.Size()) != n {
					return bad("limit", "a container of %d elements decodes to %d elements, %v", n, m.Size(), err)
				}
				for _, i := range []int{n - 1, 0, n / 2} {
					var e error
					if m.IsValueArray() {
						_, e = m.ValueAt(uint16(i))
					} else {
						_, e = m.RecordAt(uint16(i))
					}
					if e != nil {
						return bad("access", "element %d of %d: %v", i, n, e)
					}
				}
			}
			return nil
		})
	}
	for _, n := range []int{65536, 65537, 70000, 131071, 131072, 1 << 24} {
		n := n
		w.Case("primitive-limit", func() string { return fmt.Sprint(n) }, func() error {
			p := util.NewPrimitive(make([]byte, n))
			for _, x := range []util.IValue{p, util.NewValueArray().Append(p), util.NewRecordList().Append(util.NewRecord().SetValue(p))} {
				w.transitions++
				if err := x.Encode(nil); err == nil {
					return bad("limit", "a primitive of %d bytes is encoded (%T)", n, x)
				}
				if x.IsEncoded() {
					return bad("limit", "a refused value claims to be encoded")
				}
			}
			return nil
		})
	}
	// simple values: a byte string on its own
	for n := 0; n <= 600; n++ {
		n := n
		w.Case("simple", func() string { return fmt.Sprint(n) }, func() error {
			data := fill(n, 9)
			enc := util.EncodeVarchar(data)
			for _, t := range tails(enc) {
				m, k, err := util.NewSimpleMappedValue(join(enc, t))
				w.transitions++
				if err != nil || k != len(enc) || !bytes.Equal(m.Buf(), enc) {
					return bad("simple", "simple value of %d bytes: %d of %d bytes consumed, %v", n, k, len(enc), err)
				}
				if err := match(primB(data), m, forward); err != nil {
					return bad("simple", "simple value of %d bytes: %v", n, err)
				}
				c, err := m.CopyConstruct()
				if err != nil {
					return bad("simple", "copy: %v", err)
				}
				if err := match(primB(data), c.(util.IValue), forward); err != nil {
					return bad("simple", "copy of a simple value of %d bytes: %v", n, err)
				}
			}
			for _, c := range cuts(len(enc)) {
				for _, in := range truncations(enc, c) {
					if _, _, err := util.NewSimpleMappedValue(in); err == nil {
						return bad("truncated", "simple value of %d bytes cut to %d bytes is accepted", n, c)
					}
				}
			}
			return nil
		})
	}
}

// sizedValue: either the value round-trips or it is refused because it is too large
func (w *W) sizedValue(v *val) error {
	x := v.build()
	content := 0
	for _, k := range v.kids {
		content += len(k.data)
	}
	for _, r := range v.recs {
		content += len(r.value.data)
	}
	err := x.Encode(nil)
	w.transitions++
	if err != nil {
		if x.IsEncoded() {
			return bad("limit", "a refused value claims to be encoded")
		}
		if content+16 <= 65535 && (v.kind != 'r' || content < 57000) {
			return bad("limit", "value %v with %d bytes of content is refused: %v", v, content, err)
		}
		return nil
	}
	if content > 65535 {
		return bad("limit", "value %v with %d bytes of content is encoded", v, content)
	}
	return w.valueCase(v, true)
}

// ---------------------------------------------------------------------------

func (w *W) recordCase(r *rec, x *util.Record, deep bool) error {
	if err := x.Encode(nil); err != nil {
		return bad("encode", "%v: %v", r, err)
	}
	enc := append([]byte{}, x.Buf()...)
	w.Outcome(enc)
	if !x.IsEncoded() {
		return bad("encode", "%v is not encoded after encoding", r)
	}
	if err := matchRecSig(r, x, forward, r.hasSig()); err != nil {
		return bad("built", "after encoding: %v", err)
	}
	for ti, t := range tails(enc) {
		if !deep && ti%4 != 0 {
			continue
		}
		in := join(enc, t)
		keep := append([]byte{}, in...)
		m, n, err := util.NewMappedRecord(in)
		w.transitions++
		if err != nil {
			return bad("decode", "%v encoded as %s followed by %s: %v", r, showB(enc), showB(t), err)
		}
		if n != len(enc) || !bytes.Equal(m.Buf(), enc) {
			return bad("consumed", "%v followed by %s: %d of %d bytes consumed", r, showB(t), n, len(enc))
		}
		for _, ord := range []orderFn{backward, forward} {
			if err := matchRec(r, m, ord); err != nil {
				return bad(err.(*caseError).sig, "decoded from %s: %v", showB(enc), err)
			}
		}
		if !m.IsEncoded() {
			return bad("decode", "record decoded from %s claims not to be encoded", showB(enc))
		}
		if ti == 0 {
			c, err := m.CopyConstruct()
			if err != nil {
				return bad("reencode", "%v: %v", r, err)
			}
			if err := matchRec(r, c.(util.IRecord), forward); err != nil {
				return bad("reencode", "modifiable copy: %v", err)
			}
			if err := c.Encode(nil); err != nil || !bytes.Equal(c.Buf(), enc) {
				return bad("reencode", "%v encoded as %s re-encodes to %s, %v", r, showB(enc), showB(c.Buf()), err)
			}
		}
		if !bytes.Equal(in, keep) {
			return bad("modified", "decoding or accessing modified the input")
		}
	}
	for _, c := range cuts(len(enc)) {
		for _, in := range truncations(enc, c) {
			m, _, err := util.NewMappedRecord(in)
			w.transitions++
			if err == nil {
				err = walkRec(m)
			}
			if err != nil {
				continue
			}
			// only the signature may be missing
			if r.hasSig() && len(enc)-c <= 64 {
				if err := matchRecSig(r, m, forward, false); err != nil {
					return bad("truncated", "cut within the signature: %v", err)
				}
				if a, b := m.Signature(); a != nil || b != nil {
					return bad("truncated", "cut within the signature, but a signature is present: %v %v", a, b)
				}
				continue
			}
			return bad("truncated", "%v encoded as %s cut to %d of %d bytes is accepted", r, showB(enc), c, len(enc))
		}
	}
	return nil
}

func checkRecordCodec(w *W) {
	keys := [][][]byte{nil, {}, parts("a"), parts("a", "bc", "d"), {repb(0xff, 127)}, {repb(1, 128), {0}}, many(130, []byte{2})}
	// (a non-empty element makes an array non-nil)
	vals := []*val{nil, primB(nil), prim(0), prim('v', 'w'), primB(fill(255, 1)), primB(fill(256, 2)), arr(), arr(prim()), arr(prim(1), arr(prim(2), prim())), list(), list(&rec{}),
		list(&rec{key: parts("in"), value: prim(1), ts: i64(3)}, &rec{scheme: prim(2)})}
	schemes := []*val{nil, prim(), prim('s'), primB(fill(300, 1)), arr(prim(1), prim(2)), list(&rec{value: prim(3)})}
	times := []*int64{nil, i64(0), i64(1), i64(-1), i64(math.MaxInt64), i64(math.MinInt64), i64(1500000000123456789), i64(1 << 32), i64(255)}
	type sg struct{ r, s *big.Int }
	sigs := []sg{{nil, nil}, {big1, nil}, {nil, big1}, {big.NewInt(0), big.NewInt(0)}, {big1, bigMid}, {bigMax, big248}, {big.NewInt(0), bigMax}, {big248, big1}}
	i := 0
	for _, k := range keys {
		for _, v := range vals {
			for _, s := range schemes {
				for _, t := range times {
					for _, g := range sigs {
						i++
						r := &rec{key: k, value: v, scheme: s, ts: t, r: g.r, s: g.s}
						w.Case("record", func() string { return fmt.Sprintf("%d: %v", i, r) }, func() error {
							return w.recordCase(r, r.build(), !w.Quick() || i%5 == 0)
						})
					}
				}
			}
		}
	}
	// other ways to fill a record: convenience setters, order of setters, replaced and cleared components, key representations
	for mode := 0; mode < 12; mode++ {
		for _, with := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15} {
			mode, with := mode, with
			w.Case("setters", func() string { return fmt.Sprintf("mode %d components %04b", mode, with) }, func() error {
				r := &rec{}
				x := util.NewRecord()
				var set []func()
				if with&1 != 0 {
					r.key = parts("key")
					switch mode % 4 {
					case 0:
						set = append(set, func() { x.SetK([]byte("key")) })
					case 1:
						set = append(set, func() { x.SetKey(util.NewStringKey("key")) })
					case 2:
						set = append(set, func() {
							m, err := mapKey(r.key, []byte{9, 9, 9})
							if err != nil {
								panic(err)
							}
							x.SetKey(m)
						})
					default:
						set = append(set, func() { x.SetKey(util.NewSimpleKey([]byte("key"))) })
					}
				} else if mode%2 == 0 {
					set = append(set, func() { x.SetK([]byte("other")); x.SetKey(nil) })
				} else {
					set = append(set, func() { x.SetKey(util.NewEmptyKey()) })
				}
				if with&2 != 0 {
					r.value = prim('v')
					set = append(set, func() { x.SetV([]byte{'v'}) })
				} else if mode%2 == 0 {
					set = append(set, func() { x.SetV([]byte("other")); x.SetValue(nil) })
				} else {
					set = append(set, func() { x.SetV(nil) })
				}
				if with&4 != 0 {
					r.scheme = prim('s', 't')
					set = append(set, func() { x.SetS([]byte("st")) })
				} else if mode%2 == 0 {
					set = append(set, func() { x.SetS([]byte("other")); x.SetScheme(nil) })
				} else {
					set = append(set, func() { x.SetS([]byte{}) })
				}
				tm := time.Unix(77, 5)
				if with&8 != 0 {
					n := tm.UnixNano()
					r.ts, r.r, r.s = &n, big1, bigMax
					set = append(set, func() { x.SetSignature(big1, bigMax) }, func() { x.SetTimestamp(&tm) })
				} else {
					set = append(set, func() { x.SetTimestamp(&tm); x.SetSignature(big1, big1) }, func() { x.SetTimestamp(nil); x.SetSignature(nil, nil) })
				}
				for j := range set {
					k := (j + mode) % len(set)
					if with&8 == 0 {
						k = j // clearing comes last
					}
					set[k]()
					if mode >= 6 {
						// encoding in between must not matter
						if err := x.Encode(nil); err != nil {
							return bad("encode", "%v: %v", r, err)
						}
					}
				}
				return w.recordCase(r, x, true)
			})
		}
	}
	// limits of value and scheme (56 KB and 1 KB encoded) and key
	for d := -6; d <= 6; d++ {
		d := d
		w.Case("limit", func() string { return fmt.Sprintf("%+d", d) }, func() error {
			for kind := 0; kind < 5; kind++ {
				r := &rec{}
				var over bool
				size := func(n int) int { // encoded size of a primitive of n bytes
					p := util.NewPrimitive(make([]byte, n))
					if err := p.Encode(nil); err != nil {
						return n
					}
					return len(p.Buf())
				}
				switch kind {
				case 0:
					n := 57344 - 3 + d
					r.value, r.key = primB(fill(n, 1)), parts("k")
					over = size(n) > 57344
				case 1:
					n := 1024 - 3 + d
					r.scheme, r.value = primB(fill(n, 1)), prim(1)
					over = size(n) > 1024
				case 2:
					n := 4096 - 3 + d
					r.key = [][]byte{repb('k', n)}
					over = n+3 > 4096
				case 3: // all at their limits
					r.value, r.scheme, r.key, r.ts, r.r, r.s = primB(fill(57344-3, 1)), primB(fill(1024-3+d, 2)), [][]byte{repb('k', 4093)}, i64(7), big1, bigMax
					over = size(1024-3+d) > 1024
				case 4: // array values
					r.value = arr(primB(fill(30000, 1)), primB(fill(57344-30000-11+d, 2)))
					a := r.value.build()
					if err := a.Encode(nil); err != nil {
						return err
					}
					over = len(a.Buf()) > 57344
				}
				x := r.build()
				w.transitions++
				if over {
					if err := x.Encode(nil); err == nil {
						return bad("limit", "an over-sized record (%v) is encoded", r)
					}
					if x.IsEncoded() {
						return bad("limit", "a refused record claims to be encoded")
					}
					// repaired, it can be encoded
					x.SetValue(nil)
					x.SetScheme(nil)
					x.SetKey(nil)
					if err := x.Encode(nil); err != nil {
						return bad("limit", "a record is refused after its over-sized parts were removed: %v", err)
					}
					continue
				}
				if err := w.recordCase(r, x, false); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// part lengths
	for n := 1; n <= 400; n++ {
		n := n
		w.Case("lengths", func() string { return fmt.Sprint(n) }, func() error {
			for _, r := range []*rec{{key: [][]byte{repb('k', n)}, value: primB(fill(n, 1)), ts: i64(int64(n))}, {scheme: primB(fill(n, 1)), value: primB(fill(2*n, 2)), ts: i64(1), r: big1, s: bigMid}, {key: many(n, []byte{1}), scheme: primB(fill(n, 1))}} {
				if err := w.recordCase(r, r.build(), false); err != nil {
					return err
				}
			}
			return nil
		})
	}
}
