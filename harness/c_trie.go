package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C20, C21, C22: the trie

// a universe of keys; operations set or remove one of them
type trieU struct {
	name   string
	keys   [][][]byte
	probes [][][]byte // further keys that are looked up and used as bounds
	vals   int        // values per key
}

func ks(words ...string) (r [][][]byte) {
	for _, w := range words {
		var k [][]byte
		if w != "" {
			for _, p := range strings.Split(w, "/") {
				p = strings.ReplaceAll(p, "0", "\x00")
				p = strings.ReplaceAll(p, "9", "\xff")
				k = append(k, []byte(p))
			}
		}
		r = append(r, k)
	}
	return
}

func trieUniverses(quick bool) []trieU {
	us := []trieU{
		{"chain", ks("", "a", "a/a", "a/a/a", "a/b", "ab"), ks("b", "a/a/b", "a/a/a/a", "aa", "0", "a/ab", "9"), 2},
		{"bytes", ks("0", "0/0", "00", "9", "9/0", "99", "0/9"), ks("", "0/00", "000", "9/9", "a", "1"), 1},
		{"siblings", ks("a", "a/1", "a/2", "a/3", "a/4", "a/5", "a/6"), ks("", "a/0", "a/33", "b", "a/7", "a/3/1"), 1},
		{"deep", ks("a/b", "a/b/c", "a/b/c/d", "a/b/x", "a/y", "z", "a/b/c/e"), ks("", "a", "a/b/c/d/e", "b", "a/b/c/0", "zz", "a/x"), 1},
		{"roots", ks("b", "b/b", "c", "c/c/c", "d", "d/d", "bb"), ks("", "a", "b/a", "b/c", "c/c", "c/c/c/c", "e", "d/d/d"), 1},
	}
	if !quick {
		us = append(us,
			trieU{"chain3", ks("", "a", "a/a", "a/a/a", "a/b", "ab", "b", "b/a", "a/a/b"), ks("aa", "a/a/a/a", "0", "a/ab", "9", "b/a/a"), 1},
			trieU{"chain-2v", ks("", "a", "a/a", "a/a/a", "a/b", "ab", "b"), ks("b/a", "a/a/a/a"), 2},
			trieU{"siblings9", ks("a/1", "a/2", "a/3", "a/4", "a/5", "a/6", "a/7", "a/8", "a/9"), ks("", "a", "a/0", "b"), 1})
	}
	return us
}

type top struct{ k, v int } // v 0: removal, -1: lookup, -2: iteration, -3: range iteration, -4: encoding

func topsString(h []top) string {
	var p []string
	for _, o := range h {
		p = append(p, fmt.Sprintf("%d=%d", o.k, o.v))
	}
	return strings.Join(p, ",")
}

func parseTops(s string) (h []top) {
	if s == "" {
		return
	}
	for _, f := range strings.Split(s, ",") {
		p := strings.Split(f, "=")
		k, _ := strconv.Atoi(p[0])
		v, _ := strconv.Atoi(p[1])
		h = append(h, top{k, v})
	}
	return
}

type trieSUT struct {
	u    *trieU
	t    *util.Trie
	ref  map[string]util.IValue
	vals map[[2]int]util.IValue
	n    int
	reps []keyRep
}

func kstr(k [][]byte) string {
	var b strings.Builder
	for _, p := range k {
		fmt.Fprintf(&b, "%x.", p)
	}
	return b.String()
}

var trieReps = keyReps()

func newTrieSUT(u *trieU) *trieSUT {
	return &trieSUT{u: u, t: util.NewTrie(), ref: map[string]util.IValue{}, vals: map[[2]int]util.IValue{}, reps: trieReps}
}

// key makes a key object; the representation depends on n
func (s *trieSUT) key(k [][]byte, n int) util.IKey {
	for i := range s.reps {
		if x := s.reps[(n+i)%len(s.reps)].mk(k); x != nil {
			return x
		}
	}
	panic("no representation")
}

func (s *trieSUT) val(k, v int) util.IValue {
	if v == 0 {
		return nil
	}
	x := s.vals[[2]int{k, v}]
	if x == nil {
		x = util.NewPrimitive([]byte(fmt.Sprintf("value %d of %d", v, k)))
		s.vals[[2]int{k, v}] = x
	}
	return x
}

func sameVal(a, b util.IValue) bool {
	if isNilI(a) || isNilI(b) {
		return isNilI(a) && isNilI(b)
	}
	return a == b
}

func (s *trieSUT) look(o top) error {
	k := s.u.keys[o.k]
	switch o.v {
	case -1:
		if got, want := s.t.Get(s.key(k, s.n+o.k)), s.ref[kstr(k)]; !sameVal(got, want) {
			return bad("get", "looking up %s gives %v, want %v", subsString(k), got, want)
		}
	case -2, -3:
		it := s.t.Iterator()
		if o.v == -3 {
			it = s.t.RangeIterator(s.key(k, s.n+o.k), nil)
		}
		for i := 0; i < 3*len(s.u.keys)+3; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
		if o.v == -2 { // printing is looking, too
			s.t.Print(io.Discard, 1)
			if s.t.ToString() == "" {
				return bad("print", "a trie is described by nothing")
			}
		}
	case -4:
		s.t.Encode(nil)
	}
	s.n++
	return nil
}

func (s *trieSUT) apply(o top) error {
	if o.v < 0 {
		return s.look(o)
	}
	k := s.u.keys[o.k]
	v := s.val(o.k, o.v)
	got := s.t.Set(s.key(k, s.n+o.k), v)
	s.n++
	if want := s.ref[kstr(k)]; !sameVal(got, want) {
		return bad("set", "setting %s returns %v, held before was %v", subsString(k), got, want)
	}
	if v == nil {
		delete(s.ref, kstr(k))
	} else {
		s.ref[kstr(k)] = v
	}
	return nil
}

func (s *trieSUT) probes() [][][]byte {
	return append(append([][][]byte{}, s.u.keys...), s.u.probes...)
}

type trieGet interface {
	Get(util.IKey) util.IValue
}

func (s *trieSUT) observe(t trieGet, eq func(got, want util.IValue) bool) error {
	for i, k := range s.probes() {
		if got, want := t.Get(s.key(k, s.n+i)), s.ref[kstr(k)]; !eq(got, want) {
			return bad("get", "looking up %s gives %v, want %v", subsString(k), got, want)
		}
	}
	return nil
}

func (u *trieU) replay(h []top) (*trieSUT, error) {
	s := newTrieSUT(u)
	for _, o := range h {
		if err := s.apply(o); err != nil {
			return s, err
		}
	}
	return s, nil
}

// the size estimate of a trie only grows; it is not part of its state
func trieSkip(t reflect.Type, f reflect.StructField) bool {
	return t.Name() == "Trie" && f.Type.Kind() == reflect.Int
}

func (w *W) bfsTrie(u *trieU, visit func(s *trieSUT) error) {
	suite := u.name
	full := func(h []top) error {
		s, err := u.replay(h)
		if err != nil {
			return err
		}
		if err := s.observe(s.t, sameVal); err != nil {
			return err
		}
		if visit != nil {
			return visit(s)
		}
		return nil
	}
	if id, ok := w.Only(suite); ok {
		w.Exec(suite, func() string { return id }, func() error { return full(parseTops(id)) })
		return
	}
	if w.Replaying() {
		return
	}
	// looking operations are part of the histories: a look-up or a walk must
	// not change what later operations see
	var ops []top
	for k := range u.keys {
		for v := 0; v <= u.vals; v++ {
			ops = append(ops, top{k, v})
		}
		ops = append(ops, top{k, -1}, top{k, -3})
	}
	ops = append(ops, top{0, -2})
	seen := map[uint64]bool{fingerprintSkip(trieSkip, newTrieSUT(u).t): true}
	frontier := [][]top{nil}
	nst := 0
	for len(frontier) > 0 && !w.Expired() {
		var next [][]top
		for _, hist := range frontier {
			hist := hist
			nst++
			mine := nst%w.N == w.Shard
			if mine {
				w.Exec(suite, func() string { return topsString(hist) }, func() error {
					w.traces++
					w.states++
					return full(hist)
				})
				if w.Expired() {
					return
				}
			}
			for _, o := range ops {
				h := append(append([]top{}, hist...), o)
				var fp uint64
				err := protect(func() error {
					s, err := u.replay(h)
					if err == nil {
						fp = fingerprintSkip(trieSkip, s.t)
					}
					return err
				})
				if mine {
					w.transitions++
				}
				if err != nil {
					if mine {
						w.Exec(suite, func() string { return topsString(h) }, func() error { return full(h) })
					}
				} else if !seen[fp] {
					seen[fp] = true
					next = append(next, h)
				}
			}
			if w.stop {
				return
			}
		}
		frontier = next
	}
	w.Note("states_"+suite, 0)
	if w.Shard == 0 {
		w.Note("states_"+suite, int64(len(seen)))
	}
}

// every sequence up to a length, without merging states
func (w *W) seqTrie(u *trieU, depth int, check func(s *trieSUT) error) {
	suite := "seq-" + u.name
	if id, ok := w.Only(suite); ok {
		w.Exec(suite, func() string { return id }, func() error {
			s := newTrieSUT(u)
			for _, o := range parseTops(id) {
				if err := s.apply(o); err != nil {
					return err
				}
				if err := check(s); err != nil {
					return err
				}
			}
			return nil
		})
		return
	}
	if w.Replaying() {
		return
	}
	var ops []top
	for k := range u.keys {
		for v := 0; v <= u.vals; v++ {
			ops = append(ops, top{k, v})
		}
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for c := 0; c < total; c++ {
		if c%w.N != w.Shard {
			continue
		}
		if w.Expired() {
			return
		}
		var h []top
		for x, i := c, 0; i < depth; i++ {
			h = append(h, ops[x%len(ops)])
			x /= len(ops)
		}
		w.Exec(suite, func() string { return topsString(h) }, func() error {
			s := newTrieSUT(u)
			w.traces++
			for _, o := range h {
				if err := s.apply(o); err != nil {
					return err
				}
				w.transitions++
				if err := check(s); err != nil {
					return err
				}
			}
			w.State(fingerprintSkip(trieSkip, s.t))
			return nil
		})
	}
}

func init() {
	register("C20", checkInfo{level: "model_checking",
		rule:  "a state is a live trie (identified by a dump of everything it reaches, without its size estimate); every set and removal of every key of the universe is applied in every state, and every key and every neighbouring key is looked up; besides, all sequences of a fixed length are run without merging",
		assum: []string{"keys have up to five parts of one or two bytes, long parts and wide or deep tries only along enumerated histories", "a removed or never set value is nil"}},
		func(w *W) {
			us := trieUniverses(w.Quick())
			for i := range us {
				w.bfsTrie(&us[i], nil)
			}
			depth := 4
			if !w.Quick() {
				depth = 5
			}
			for i := range us[:5] {
				u := us[i]
				if u.vals > 1 || len(u.keys) > 6 {
					u.keys = u.keys[:6]
				}
				w.seqTrie(&u, depth, func(s *trieSUT) error { return s.observe(s.t, sameVal) })
			}
			// two tries at a time: every pair of short histories, interleaved
			u := trieU{"two", ks("a", "a/b", ""), ks("b", "a/b/c"), 1}
			var ops []top
			for k := range u.keys {
				for v := 0; v <= 1; v++ {
					ops = append(ops, top{k, v})
				}
			}
			n := len(ops)
			for c := 0; c < n*n*n*n; c++ {
				c := c
				w.Case("two", func() string { return fmt.Sprint(c) }, func() error {
					a, b := newTrieSUT(&u), newTrieSUT(&u)
					b.n = 5
					for i, x := 0, c; i < 4; i, x = i+1, x/n {
						s := a
						if i%2 == 1 {
							s = b
						}
						if err := s.apply(ops[x%n]); err != nil {
							return err
						}
						for _, y := range []*trieSUT{a, b} {
							if err := y.observe(y.t, sameVal); err != nil {
								return err
							}
						}
						w.transitions++
					}
					w.traces++
					return nil
				})
			}
			bigTries(w, true, func(s *trieSUT, last bool) error { return s.observe(s.t, sameVal) })
			walkTries(w)
		})
}

// walkTries performs every operation at every size from 1 to n and back, for tries that grow in
// width, in depth, in the length of their sub-keys or in several of these.
func walkTries(w *W) {
	n, deep := 1300, 300
	if !w.Quick() {
		n, deep = 10000, 1500
	}
	two := func(i int) []byte { return []byte{byte(i >> 8), byte(i)} }
	shapes := []struct {
		name string
		n    int
		key  func(i int) [][]byte
		odd  func(k [][]byte, i int) [][]byte
	}{
		{"wide", n, func(i int) [][]byte { return [][]byte{two(i)} }, func(k [][]byte, i int) [][]byte { return [][]byte{append(two(i), 0)} }},
		{"under", n, func(i int) [][]byte { return [][]byte{{1}, {2}, two(i)} }, func(k [][]byte, i int) [][]byte { return [][]byte{{1}, {3}, two(i)} }},
		{"fork", n, func(i int) [][]byte { return [][]byte{two(i / 2), {byte(i % 2)}} }, func(k [][]byte, i int) [][]byte { return [][]byte{two(i / 2)} }},
		{"square", n, func(i int) [][]byte { return [][]byte{two(i % 37), two(i / 37)} }, func(k [][]byte, i int) [][]byte { return [][]byte{two(i / 37), two(i % 37), {1}} }},
		{"deep", deep, func(i int) (k [][]byte) {
			for j := 0; j <= i; j++ {
				k = append(k, []byte{byte(j)})
			}
			return
		}, func(k [][]byte, i int) [][]byte { return append(append([][]byte{}, k...), []byte{255, 1}) }},
		{"comb", deep, func(i int) (k [][]byte) {
			for j := 0; j < i; j++ {
				k = append(k, []byte("x"))
			}
			return append(k, []byte("y"))
		}, func(k [][]byte, i int) [][]byte { return append(append([][]byte{}, k[:i]...), []byte("z")) }},
		{"lengths", deep * 2, func(i int) [][]byte { return [][]byte{repb('k', i+1)} }, func(k [][]byte, i int) [][]byte { return [][]byte{append(repb('k', i), 'l')} }},
	}
	for _, sh := range shapes {
		sh := sh
		// mk makes a trie and what applies an operation to it
		mk := func() func(sop) error {
			t := util.NewTrie()
			ref := map[int]util.IValue{}
			rep := &trieSUT{reps: trieReps}
			// an absent key may be the key of several numbers, never a stored one
			key := func(k int) util.IKey {
				rep.n++
				switch {
				case k < 0 || k >= 2*sh.n:
					return rep.key([][]byte{{9, 9, 9}, {8}}, rep.n)
				case k%2 == 0:
					return rep.key(sh.key(k/2), rep.n)
				}
				return rep.key(sh.odd(sh.key(k/2), k/2), rep.n)
			}
			id := func(k int) int {
				if k%2 != 0 && sh.name == "fork" {
					return (k-1)/4*4 + 1
				}
				return k
			}
			vals := 0
			return func(o sop) error {
				vals++
				want := ref[id(o.key)]
				switch o.op {
				case 'g':
					if got := t.Get(key(o.key)); !sameVal(got, want) {
						return bad("get", "looking up gives %v, want %v", got, want)
					}
				default:
					var v util.IValue
					if o.op == 'p' && o.val != 0 {
						v = util.NewPrimitive([]byte{byte(vals), byte(vals >> 8), byte(vals >> 16)})
					}
					if got := t.Set(key(o.key), v); !sameVal(got, want) {
						return bad("set", "setting returns %v, held before was %v", got, want)
					}
					delete(ref, id(o.key))
					if v != nil {
						ref[id(o.key)] = v
					}
				}
				return nil
			}
		}
		if sh.n > 20 {
			pn := 8
			if !w.Quick() {
				pn = 14
			}
			w.probes("probe-"+sh.name, pn, "g", mk)
		}
		for i, ins := range walkNames {
			ins, del := ins, walkNames[(i*5+2)%len(walkNames)]
			w.Case("walk-"+sh.name, func() string { return ins + "/" + del }, func() error {
				apply := mk()
				w.traces++
				return sizeWalk(sh.n, ins, del, apply, func(keys []int) error {
					for _, k := range keys {
						if err := apply(sop{'g', k, 0}); err != nil {
							return err
						}
					}
					return nil
				}, &w.transitions)
			})
		}
	}
}

// bigTries runs enumerated long histories: wide, deep and mixed tries, built
// up and taken down in several orders.
func bigTries(w *W, dense bool, check func(s *trieSUT, last bool) error) {
	w.limit.Store(90)
	defer w.limit.Store(20)
	shapes := map[string][][][]byte{}
	var wide, deep, mixed, long [][][]byte
	for i := 0; i < 300; i++ {
		wide = append(wide, [][]byte{{byte(i >> 8), byte(i)}})
	}
	var k [][]byte
	for i := 0; i < 60; i++ {
		k = append(k, []byte{byte(i % 3)})
		deep = append(deep, append([][]byte{}, k...))
		if i%5 == 0 {
			deep = append(deep, append(append([][]byte{}, k...), []byte{9}))
		}
	}
	for i := 0; i < 7; i++ {
		for j := 0; j < 7; j++ {
			mixed = append(mixed, [][]byte{{byte(i)}, {byte(j)}})
			if (i+j)%3 == 0 {
				mixed = append(mixed, [][]byte{{byte(i)}, {byte(j)}, {1}}, [][]byte{{byte(i), byte(j)}})
			}
		}
		mixed = append(mixed, [][]byte{{byte(i)}})
	}
	for _, n := range []int{1, 2, 127, 128, 129, 255, 256, 257, 1000} {
		long = append(long, [][]byte{repb('x', n)}, [][]byte{repb('x', n), repb('y', n)})
	}
	var wider, deeper [][][]byte
	for i := 0; i < 1100; i++ {
		wider = append(wider, [][]byte{{7}, {byte(i >> 8), byte(i)}})
	}
	k = nil
	for i := 0; i < 280; i++ {
		k = append(k, []byte{byte(i % 5)})
		deeper = append(deeper, append([][]byte{}, k...))
	}
	shapes["wide"], shapes["deep"], shapes["mixed"], shapes["long"], shapes["wider"], shapes["deeper"] = wide, deep, mixed, long, wider, deeper
	for _, name := range []string{"wide", "deep", "mixed", "long", "wider", "deeper"} {
		for _, order := range []string{"up", "down", "inside", "stride"} {
			name, order := name, order
			keys := shapes[name]
			w.Case("big-"+name, func() string { return order }, func() error {
				u := &trieU{name: name, keys: keys, vals: 1}
				s := newTrieSUT(u)
				idx := forward(len(keys))
				switch order {
				case "down":
					idx = backward(len(keys))
				case "inside":
					idx = inside(len(keys))
				case "stride":
					idx = nil
					for st := 0; st < 7; st++ {
						for i := st; i < len(keys); i += 7 {
							idx = append(idx, i)
						}
					}
				}
				step := func(o top, i int) error {
					if err := s.apply(o); err != nil {
						return err
					}
					w.transitions++
					every := 23
					if dense && i < 40 {
						every = 1
					} else if name == "wider" || name == "deeper" {
						every = len(keys)/3 + 5
					}
					if i%every == 0 || i == len(keys)-1 || i > 60 && i&(i+1) == 0 {
						return check(s, i == len(keys)-1)
					}
					return nil
				}
				for i, x := range idx {
					if err := step(top{x, 1}, i); err != nil {
						return err
					}
				}
				for i, x := range idx { // remove every second, then the rest
					if i%2 == 0 {
						if err := step(top{x, 0}, i); err != nil {
							return err
						}
					}
				}
				for i, x := range idx {
					if i%2 == 1 {
						if err := step(top{x, 0}, i); err != nil {
							return err
						}
					}
				}
				w.traces++
				return check(s, true)
			})
		}
	}
}

// ---------------------------------------------------------------------------
// C21

type yield struct {
	k  [][]byte
	v  util.IValue
	ok bool
}

func mkYield(k util.IKey, v util.IValue) yield {
	if k == nil || isNilPtr(k) {
		return yield{v: v}
	}
	return yield{cpSubs(k.Key()), v, true}
}

func (y yield) String() string {
	if !y.ok {
		return fmt.Sprintf("end(%v)", y.v)
	}
	if isNilI(y.v) {
		return subsString(y.k) + "=nil"
	}
	return fmt.Sprintf("%s=%s", subsString(y.k), y.v.Value())
}

func sameYield(a, b yield) bool {
	return a.ok == b.ok && sameVal(a.v, b.v) && (!a.ok || eqSubs(a.k, b.k))
}

func hasPrefix(k, p [][]byte) bool {
	return len(k) >= len(p) && eqSubs(k[:len(p)], p)
}

// stored keys, ascending
func (s *trieSUT) stored() (r [][][]byte) {
	for _, k := range s.u.keys {
		if v := s.ref[kstr(k)]; v != nil && !v.IsNil() {
			r = append(r, k)
		}
	}
	sort.Slice(r, func(i, j int) bool { return cmpSubs(r[i], r[j]) < 0 })
	return
}

type trieIt interface {
	Next() (util.IKey, util.IValue)
	HasNext() bool
	Peek() (util.IKey, util.IValue)
}

// trieIters checks iterators made by mk: want are the stored entries expected.
func (s *trieSUT) trieIters(w *W, mk func() trieIt, want [][][]byte, under [][]byte, val func(k [][]byte, v util.IValue) bool, pats []string, what string) error {
	// what a plain sequence of Next yields
	it := mk()
	var seq []yield
	for i := 0; ; i++ {
		y := mkYield(it.Next())
		if !y.ok {
			if !isNilI(y.v) {
				return bad("iter", "%s: at the end yields value %v", what, y.v)
			}
			break
		}
		seq = append(seq, y)
		if i > 20*len(s.u.keys)+5000 {
			return bad("iter", "%s: does not end", what)
		}
	}
	n := 0
	for i, y := range seq {
		if i > 0 && cmpSubs(seq[i-1].k, y.k) >= 0 {
			return bad("order", "%s: %s is yielded after %s", what, subsString(y.k), subsString(seq[i-1].k))
		}
		if !hasPrefix(y.k, under) {
			return bad("subtree", "%s: yields %s, which is not below %s", what, subsString(y.k), subsString(under))
		}
		if isNilI(y.v) || y.v.IsNil() {
			ks := kstr(y.k)
			ref := s.ref[ks]
			ok := len(y.k) == 0 || ref != nil // an empty value
			for k, v := range s.ref {
				if ok {
					break
				}
				ok = v != nil && strings.HasPrefix(k, ks)
			}
			if !ok || ref != nil && !ref.IsNil() {
				return bad("iter", "%s: yields %s without value", what, subsString(y.k))
			}
			continue
		}
		if n >= len(want) || !eqSubs(want[n], y.k) {
			return bad("iter", "%s: yields %s as entry %d, want %v", what, y, n, want)
		}
		if !val(y.k, y.v) {
			return bad("iter", "%s: yields %s, stored is %v", what, y, s.ref[kstr(y.k)])
		}
		n++
	}
	if n != len(want) {
		return bad("iter", "%s: yields %d entries of %d: %v", what, n, len(want), seq)
	}
	end := yield{}
	if pats == nil {
		l := len(seq)
		pats = []string{rep("n", l+3), rep("hpn", l+2), rep("pphhn", l+1) + "hpnphn", rep("hnn", l/2+2)}
	}
	for _, p := range pats {
		it := mk()
		pos := 0
		for i, c := range p {
			exp := end
			if pos < len(seq) {
				exp = seq[pos]
			}
			switch c {
			case 'h':
				if got := it.HasNext(); got != exp.ok {
					return bad("has", "%s, call %d of %s: HasNext is %v at position %d of %v", what, i, p, got, pos, seq)
				}
			case 'p':
				if y := mkYield(it.Peek()); !sameYield(y, exp) && !(exp.ok && y.ok && eqSubs(y.k, exp.k) && val(y.k, y.v)) {
					return bad("peek", "%s, call %d of %s: Peek gives %v, Next gives %v", what, i, p, y, exp)
				}
			case 'n':
				if y := mkYield(it.Next()); !sameYield(y, exp) && !(exp.ok && y.ok && eqSubs(y.k, exp.k) && val(y.k, y.v)) {
					return bad("next", "%s, call %d of %s: Next gives %v, want %v", what, i, p, y, exp)
				}
				if pos < len(seq) {
					pos++
				}
			}
		}
		w.transitions += int64(len(p))
	}
	w.Note("iterators", int64(len(pats)+1))
	return nil
}

type trieIterable interface {
	Iterator() util.ITrieIterator
	KeyIterator(util.IKey) util.ITrieIterator
	RangeIterator(a, b util.IKey) util.ITrieIterator
}

// iterateAll checks the iterators of every subtree and every range.
func (s *trieSUT) iterateAll(w *W, t trieIterable, val func(k [][]byte, v util.IValue) bool, pats []string, bounds [][][]byte) error {
	stored := s.stored()
	if err := s.trieIters(w, func() trieIt { return t.Iterator() }, stored, nil, val, pats, "iterator"); err != nil {
		return err
	}
	if err := s.trieIters(w, func() trieIt { return t.KeyIterator(nil) }, stored, nil, val, pats, "key iterator without key"); err != nil {
		return err
	}
	for i, k := range bounds {
		var want [][][]byte
		for _, x := range stored {
			if hasPrefix(x, k) {
				want = append(want, x)
			}
		}
		i, k := i, k
		if err := s.trieIters(w, func() trieIt { return t.KeyIterator(s.key(k, s.n+i)) }, want, k, val, pats, "key iterator of "+subsString(k)); err != nil {
			return err
		}
	}
	all := append([][][]byte{nil}, bounds...)
	for i, a := range all {
		for j, b := range all {
			if i > 0 && j > 0 && cmpSubs(a, b) > 0 {
				continue // refused
			}
			var want [][][]byte
			for _, x := range stored {
				if (i == 0 || cmpSubs(x, a) >= 0) && (j == 0 || cmpSubs(x, b) < 0) {
					want = append(want, x)
				}
			}
			i, j, a, b := i, j, a, b
			mk := func() trieIt {
				var x, y util.IKey
				if i > 0 {
					x = s.key(a, s.n+i)
				}
				if j > 0 {
					y = s.key(b, s.n+i+2*j)
				}
				return t.RangeIterator(x, y)
			}
			what := "range"
			if i > 0 {
				what += " from " + subsString(a)
			}
			if j > 0 {
				what += " to " + subsString(b)
			}
			if err := s.trieIters(w, mk, want, nil, val, pats, what); err != nil {
				return err
			}
			w.Outcome(fmt.Sprint(want))
		}
	}
	return nil
}

func (s *trieSUT) sameStored(k [][]byte, v util.IValue) bool { return sameVal(v, s.ref[kstr(k)]) }

func init() {
	register("C21", checkInfo{level: "model_checking",
		rule:  "a state is a live trie; in every reachable state of every universe, the iterators of the whole trie, of every key's subtree and of every range between two keys of the universe (or without bound) are driven with several orders of next, peek and has-next, in small universes with every order of a fixed length; each is compared with the sorted stored keys",
		assum: []string{"an iterator may also yield keys without value that are proper prefixes of stored keys (or the root)", "a start above the end is refused by the library", "a trie is not modified while it is iterated"}},
		func(w *W) {
			us := trieUniverses(w.Quick())
			for i := range us {
				us[i].name = "it-" + us[i].name
				w.bfsTrie(&us[i], func(s *trieSUT) error {
					if err := s.iterateAll(w, s.t, s.sameStored, nil, s.probes()); err != nil {
						return err
					}
					if err := s.observe(s.t, sameVal); err != nil {
						return bad("modified", "after iterating, %v", err)
					}
					return nil
				})
			}
			wl := 5
			if !w.Quick() {
				wl = 7
			}
			ws := words(wl)
			small := []trieU{
				{"w-chain", ks("", "a", "a/b", "b"), ks("a/a", "c"), 1},
				{"w-gaps", ks("a/b", "a/b/c", "b/x", "c"), ks("", "a", "b"), 1},
				{"w-wide", ks("a", "b", "c", "d"), ks("bb"), 1},
			}
			for i := range small {
				w.bfsTrie(&small[i], func(s *trieSUT) error { return s.iterateAll(w, s.t, s.sameStored, ws, s.probes()) })
			}
			// two iterators at a time
			for _, u := range small {
				u := u
				for c := 0; c < 64; c++ {
					if w.Quick() && c%4 != 2 && c != 0 && c != 63 && c != 21 && c != 56 {
						continue
					}
					c := c
					w.Case("two-iters", func() string { return fmt.Sprintf("%s %d", u.name, c) }, func() error {
						var h []top
						for k := range u.keys {
							h = append(h, top{k, 1})
						}
						s, err := u.replay(h)
						if err != nil {
							return err
						}
						var tries []trieIterable
						tries = append(tries, s.t)
						if err := s.t.Encode(nil); err != nil {
							return err
						}
						m, _, err := util.NewMappedTrie(append([]byte{}, s.t.Buf()...))
						if err != nil {
							return err
						}
						tries = append(tries, m)
						for ti, tr := range tries {
							tr := tr
							k1, k2 := u.keys[1], u.keys[len(u.keys)-1]
							mk := []func() trieIt{func() trieIt { return tr.Iterator() },
								func() trieIt { return tr.RangeIterator(s.key(k1, 0), nil) },
								func() trieIt { return tr.RangeIterator(nil, s.key(k2, 0)) },
								func() trieIt { return tr.RangeIterator(nil, nil) },
								func() trieIt { return tr.KeyIterator(s.key(k1, 0)) },
								func() trieIt { return tr.KeyIterator(s.key(u.keys[0][:1:1], 0)) },
								func() trieIt { return tr.KeyIterator(s.key(nil, 0)) }}
							if len(u.keys[0]) == 0 {
								mk = append(mk[:5], mk[6:]...)
							}
							alone := make([][]yield, len(mk))
							for i := range mk {
								it := mk[i]()
								for n := 0; n < 12; n++ {
									alone[i] = append(alone[i], mkYield(it.Next()))
								}
							}
							for a := range mk {
								for b := range mk {
									for _, peek := range []bool{true, false} {
										its := []trieIt{mk[a](), mk[b]()}
										which := []int{a, b}
										pos := []int{0, 0}
										for n := 0; n < 18; n++ {
											i := c >> uint(n%6) & 1
											if pos[i] >= 12 {
												continue
											}
											want := alone[which[i]][pos[i]]
											if peek && (its[i].HasNext() != want.ok || !sameYield(mkYield(its[i].Peek()), want)) {
												return bad("two", "trie %d: an iterator (%d of %d, %d) is disturbed by another one", ti, i, a, b)
											}
											if y := mkYield(its[i].Next()); !sameYield(y, want) && !(y.ok && want.ok && eqSubs(y.k, want.k) && ti > 0) {
												return bad("two", "trie %d: an iterator (%d of %d, %d) yields %v next to another one, %v alone", ti, i, a, b, y, want)
											}
											pos[i]++
											w.transitions++
										}
									}
								}
							}
						}
						return nil
					})
				}
			}
			bigTries(w, false, func(s *trieSUT, last bool) error {
				st := s.stored()
				var b [][][]byte
				if s.u.name == "deeper" && len(st) > 0 { // every key yielded is long
					return s.iterateAll(w, s.t, s.sameStored, []string{rep("hpn", len(s.u.keys)+5)}, [][][]byte{st[len(st)/2]})
				}
				if s.u.name == "wider" && len(st) > 0 {
					return s.iterateAll(w, s.t, s.sameStored, nil, [][][]byte{st[len(st)/2], st[len(st)-1]})
				}
				for i := 0; i < len(st); i += len(st)/6 + 1 {
					b = append(b, st[i], append(append([][]byte{}, st[i]...), []byte{5}))
					if len(st[i]) > 1 {
						b = append(b, st[i][:len(st[i])-1])
					}
				}
				if len(b) == 0 {
					b = append(b, [][]byte{{1}})
				}
				return s.iterateAll(w, s.t, s.sameStored, nil, b)
			})
		})
}

// ---------------------------------------------------------------------------
// C22

func (s *trieSUT) contentEq(got, want util.IValue) bool {
	if isNilI(want) || want.IsNil() {
		return isNilI(got) || got.IsNil()
	}
	if isNilI(got) || got.IsNil() {
		return false
	}
	if got.IsPrimitive() != want.IsPrimitive() || got.IsValueArray() != want.IsValueArray() || got.IsRecordList() != want.IsRecordList() ||
		got.Size() != want.Size() || !bytes.Equal(got.Value(), want.Value()) {
		return false
	}
	return bytes.Equal(got.Buf(), want.Buf())
}

// encodeCheck encodes the trie and reads it back.
// copyCheck checks copies of a trie in whatever state it is.
func (s *trieSUT) copyCheck(w *W) error {
	c := s.t.Copy().(*util.MappedTrie)
	x, err := s.t.CopyConstruct()
	if err != nil {
		return bad("copy", "a trie is not copied: %v", err)
	}
	for i, m := range []*util.MappedTrie{c, x.(*util.MappedTrie)} {
		if err := s.observe(m, s.contentEq); err != nil {
			return bad("copy", "copy %d of the trie: %v", i, err)
		}
	}
	if err := s.observe(s.t, sameVal); err != nil {
		return bad("copy", "after copying: %v", err)
	}
	// later changes do not show in the copy
	if len(s.u.keys) == 0 {
		return nil
	}
	before := map[string]util.IValue{}
	for k, v := range s.ref {
		before[k] = v
	}
	for i := range s.u.keys {
		if i < 4 {
			s.t.Set(s.key(s.u.keys[i], s.n+i), util.NewPrimitive([]byte{1, 2, byte(i)}))
		}
	}
	if err := s.observe(c, s.contentEq); err != nil {
		return bad("copy", "a later change of the trie shows in its copy: %v", err)
	}
	y := s.t.Copy().(*util.MappedTrie)
	for i, k := range s.u.keys {
		if i < 4 {
			if v := y.Get(s.key(k, 0)); isNilI(v) || !bytes.Equal(v.Value(), []byte{1, 2, byte(i)}) {
				return bad("copy", "a copy made after changing %s has the value %v", subsString(k), v)
			}
		}
	}
	for i, k := range s.u.keys {
		if i < 4 {
			var v util.IValue
			if x := before[kstr(k)]; x != nil {
				v = x
			}
			s.t.Set(s.key(k, s.n+i), v)
		}
	}
	w.transitions += 3
	return nil
}

func (s *trieSUT) encodeCheck(w *W, deep bool) error {
	if err := s.copyCheck(w); err != nil {
		return err
	}
	if err := s.t.Encode(nil); err != nil {
		return bad("encode", "encoding fails: %v", err)
	}
	if !s.t.IsEncoded() {
		return bad("encode", "an encoded trie says it is not encoded")
	}
	enc := append([]byte{}, s.t.Buf()...)
	first := s.t.Buf()
	if err := s.observe(s.t, sameVal); err != nil {
		return bad("encode", "after encoding: %v", err)
	}
	tails := [][]byte{nil, {0}, {1, 0}, bytes.Repeat([]byte{0xff}, 9)}
	for ti, tail := range tails {
		if ti > 1 && !deep {
			break
		}
		in := join(enc, tail)
		keep := append([]byte{}, in...)
		m, n, err := util.NewMappedTrie(in)
		if err != nil {
			return bad("decode", "with %d bytes following, the encoding is not decoded: %v", len(tail), err)
		}
		if n != len(enc) {
			return bad("consumed", "with %d bytes following, %d bytes of %d are consumed", len(tail), n, len(enc))
		}
		if !bytes.Equal(m.Buf(), enc) {
			return bad("buf", "with %d bytes following, Buf of the decoded trie is %x, not %x", len(tail), m.Buf(), enc)
		}
		if !m.IsDecoded() || !m.IsEncoded() {
			return bad("decode", "a decoded trie says it is not decoded")
		}
		if err := s.observe(m, s.contentEq); err != nil {
			return bad("content", "decoded: %v", err)
		}
		if err := s.observe(m, s.contentEq); err != nil {
			return bad("content", "decoded, looked up again: %v", err)
		}
		if ti == 0 {
			b := s.probes()
			if len(b) > 8 && !deep {
				b = b[:8]
			}
			if len(b) > 12 {
				b = b[:12]
			}
			if err := s.iterateAll(w, m, func(k [][]byte, v util.IValue) bool { return s.contentEq(v, s.ref[kstr(k)]) }, []string{"nnphn"}, b); err != nil {
				return bad("iterate", "decoded: %v", err)
			}
			c := m.Copy().(*util.MappedTrie)
			for i := range in {
				in[i] ^= 0xff
			}
			if err := s.observe(c, s.contentEq); err != nil {
				return bad("copy", "copy of the decoded trie after its buffer is reused: %v", err)
			}
			for i := range in {
				in[i] ^= 0xff
			}
		}
		if !bytes.Equal(in, keep) {
			return bad("modified", "decoding changes its input")
		}
		w.transitions++
	}
	// truncations
	for _, n := range cuts(len(enc)) {
		if n >= len(enc) {
			continue
		}
		if m, _, err := util.NewMappedTrie(append(make([]byte, 0, n), enc[:n]...)); err == nil {
			// a value may be decoded lazily: the missing element must be reported
			for _, k := range s.probes() {
				v := m.Get(s.key(k, 0))
				if e := walk(v); e != nil {
					err = e
				}
			}
			if err == nil {
				return bad("truncated", "the encoding cut to %d of %d bytes is accepted", n, len(enc))
			}
		}
		w.transitions++
	}
	if err := s.t.Encode(nil); err != nil || !bytes.Equal(s.t.Buf(), enc) {
		return bad("encode", "encoding again gives another encoding (%v)", err)
	}
	if !bytes.Equal(first, enc) {
		return bad("encode", "encoding again alters the first encoding")
	}
	return nil
}

func init() {
	register("C22", checkInfo{level: "model_checking",
		rule:  "a state is a live trie; in every reachable state of every universe the trie is encoded, decoded with and without bytes following, cut at every length, compared key by key and by iteration, and encoded again; besides, all sequences of a fixed length are run with an encoding after every step",
		assum: []string{"values are constructed ones (decoded values refuse to be encoded)", "an absent value and an empty one are the same"}},
		func(w *W) {
			us := trieUniverses(w.Quick())
			for i := range us {
				us[i].name = "enc-" + us[i].name
				w.bfsTrie(&us[i], func(s *trieSUT) error {
					w.Outcome(fmt.Sprint(s.stored()))
					return s.encodeCheck(w, false)
				})
			}
			// encodings between modifications are never stale
			for i := range us[:5] {
				u := us[i]
				if len(u.keys) > 5 {
					u.keys = u.keys[:5]
				}
				u.vals = 1
				d := 4
				if w.Quick() {
					d = 3
				}
				var handed [][2][]byte
				var of *trieSUT
				w.seqTrie(&u, d, func(s *trieSUT) error {
					if of != s {
						of, handed = s, nil
					}
					if s.t.IsEncoded() {
						m, _, err := util.NewMappedTrie(append([]byte{}, s.t.Buf()...))
						if err != nil || s.observe(m, s.contentEq) != nil {
							return bad("stale", "after a modification the trie claims to be encoded but holds an older encoding")
						}
					}
					if err := s.encodeCheck(w, false); err != nil {
						return err
					}
					for _, h := range handed {
						if !bytes.Equal(h[0], h[1]) {
							return bad("handed-out", "an encoding handed out earlier is altered")
						}
					}
					handed = append(handed, [2][]byte{s.t.Buf(), append([]byte{}, s.t.Buf()...)})
					return nil
				})
			}
			// values of every kind
			for _, pos := range []string{"", "a", "a/b", "b"} {
				for vi, v := range append(smallTrieVals(), primB(repb(1, 255)), primB(repb(2, 256)), primB(repb(3, 65535)), prim(), primB(repb(0, 3))) {
					pos, vi, v := pos, vi, v
					w.Case("values", func() string { return fmt.Sprintf("%s value %d", pos, vi) }, func() error {
						u := &trieU{"values", ks("", "a", "a/b", "b", "a/b/c"), ks("c"), 1}
						s := newTrieSUT(u)
						for k := range u.keys {
							if kstr(u.keys[k]) == kstr(ks(pos)[0]) {
								s.vals[[2]int{k, 1}] = v.build()
							}
							if err := s.apply(top{k, 1}); err != nil {
								return err
							}
						}
						if err := s.encodeCheck(w, true); err != nil {
							return err
						}
						m, _, err := util.NewMappedTrie(append([]byte{}, s.t.Buf()...))
						if err != nil {
							return err
						}
						if err := match(v, m.Get(s.key(ks(pos)[0], 0)), forward); err != nil {
							return bad("content", "value %v: %v", v, err)
						}
						w.Outcome(pos, vi)
						return nil
					})
				}
			}
			// a stored value changes in place between two encodings
			for _, pos := range []string{"", "a", "a/b", "b"} {
				for _, how := range []string{"array", "inner array", "list", "record", "record value", "key"} {
					for n := 0; n < 6; n++ {
						pos, how, n, copies := pos, how, n%3, n >= 3
						w.Case("inside", func() string { return fmt.Sprintf("%s %s %d %v", pos, how, n, copies) }, func() error {
							inner, ia := util.NewValueArray().Append(util.NewPrimitive([]byte{1})), arr(prim(1))
							key := util.NewKey().Add([]byte("k"))
							r := util.NewRecord().SetKey(key)
							mr := &rec{key: parts("k")}
							var v util.IValue
							var m *val
							var change func(i int)
							switch how {
							case "array", "inner array":
								v, m = inner, ia
								if how == "inner array" {
									v, m = util.NewValueArray().Append(inner), arr(ia)
								}
								change = func(i int) {
									inner.Append(util.NewPrimitive([]byte{byte(i)}))
									ia.kids = append(ia.kids, prim(byte(i)))
								}
							case "list":
								l := util.NewRecordList().Append(r)
								v, m = l, list(mr)
								change = func(i int) {
									l.Append(util.NewRecord().SetK([]byte{byte(i + 1)}))
									m.recs = append(m.recs, &rec{key: [][]byte{{byte(i + 1)}}})
								}
							default:
								v, m = util.NewRecordList().Append(r), list(mr)
								change = func(i int) {
									switch how {
									case "record":
										r.SetValue(util.NewPrimitive([]byte{byte(i)}))
										mr.value = prim(byte(i))
									case "record value":
										if i == 0 {
											r.SetValue(inner)
											mr.value = ia
										}
										inner.Append(util.NewPrimitive([]byte{byte(i)}))
										ia.kids = append(ia.kids, prim(byte(i)))
									case "key":
										key.Add([]byte{byte(i + 1)})
										mr.key = append(append([][]byte{}, mr.key...), []byte{byte(i + 1)})
									}
								}
							}
							t := util.NewTrie()
							at := newTrieSUT(&trieU{}).key(ks(pos)[0], n)
							t.Set(util.NewStringKey("z"), util.NewPrimitive([]byte("other")))
							t.Set(at, v)
							for i := 0; i <= n; i++ {
								if i > 0 || n == 2 {
									change(i)
								}
								if copies {
									c := t.Copy().(*util.MappedTrie)
									if err := match(m, c.Get(at), forward); err != nil {
										return bad("copy", "a copy made after change %d inside the value: %v", i, err)
									}
									x, err := t.CopyConstruct()
									if err != nil {
										return bad("copy", "after change %d: %v", i, err)
									}
									if err := match(m, x.(*util.MappedTrie).Get(at), backward); err != nil {
										return bad("copy", "a copy constructed after change %d inside the value: %v", i, err)
									}
								}
								if err := t.Encode(nil); err != nil {
									return bad("encode", "after change %d: %v", i, err)
								}
								d, _, err := util.NewMappedTrie(append([]byte{}, t.Buf()...))
								if err != nil {
									return bad("decode", "after change %d: %v", i, err)
								}
								if err := match(m, d.Get(at), forward); err != nil {
									return bad("stale", "after change %d inside the value: %v", i, err)
								}
								w.transitions++
							}
							return nil
						})
					}
				}
			}
			w.Case("unencodable", func() string { return "-" }, func() error {
				for _, k := range []string{"", "a", "a/b"} {
					t := util.NewTrie()
					t.Set(util.NewStringKey("z"), util.NewPrimitive([]byte("v")))
					key := newTrieSUT(&trieU{}).key(ks(k)[0], 0)
					t.Set(key, util.NewPrimitive(make([]byte, 65536)))
					if err := t.Encode(nil); err == nil {
						return bad("oversized", "a trie with a value that cannot be represented is encoded")
					}
					if t.IsEncoded() {
						return bad("oversized", "a trie whose encoding failed claims to be encoded")
					}
					t.Set(key, util.NewPrimitive([]byte("w")))
					if err := t.Encode(nil); err != nil {
						return bad("oversized", "after replacing the value the trie is not encoded: %v", err)
					}
				}
				return nil
			})
			bigTries(w, false, func(s *trieSUT, last bool) error {
				if err := s.encodeCheck(w, last); err != nil {
					return err
				}
				return nil
			})
		})
}

func smallTrieVals() []*val {
	return []*val{prim(1), primB([]byte("hello")), arr(prim(1), prim(2)), arr(arr(prim(1)), prim()), list(&rec{key: parts("k"), value: prim(1)}),
		list(&rec{key: parts("k"), ts: i64(5)}, &rec{value: arr(prim(3))}), arr(list(&rec{key: parts("a", "b")}))}
}
