package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"../../repo/src/collection"
)

// ---------------------------------------------------------------------------
// keys owned by the harness

var cmpCount int // number of comparisons/equality tests made on ik keys

type ik int

func (k ik) Equal(o collection.IObject) bool {
	cmpCount++
	x, ok := o.(ik)
	return ok && x == k
}

func (k ik) Compare(c collection.IComparable) int {
	cmpCount++
	if c == nil {
		return 1
	}
	x := c.(ik)
	if k < x {
		return -1
	} else if k > x {
		return 1
	}
	return 0
}

// pk: pointer keys; equal keys are different objects, so that the identity of
// the returned/stored key is observable.
type pk struct {
	k, tag int
}

func (k *pk) Equal(o collection.IObject) bool {
	x, ok := o.(*pk)
	return ok && x != nil && x.k == k.k
}

func (k *pk) Compare(c collection.IComparable) int {
	x, ok := c.(*pk)
	if !ok || x == nil {
		return 1
	}
	// any negative or positive number is a legal comparison result
	return 7 * (k.k - x.k)
}

// ---------------------------------------------------------------------------
// operations on a sorted map / set, in lock-step with a Go map

type sop struct {
	op  byte // 'p'ut 'r'emove 'g'et 'i'terate 'R'ange iterate (looking only)
	key int
	val int
}

func (o sop) String() string {
	if o.op == 'p' {
		return fmt.Sprintf("p%d=%d", o.key, o.val)
	}
	return fmt.Sprintf("%c%d", o.op, o.key)
}

func opsString(ops []sop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, ",")
}

func parseOps(s string) []sop {
	var r []sop
	if s == "" {
		return r
	}
	for _, f := range strings.Split(s, ",") {
		o := sop{op: f[0]}
		p := strings.SplitN(f[1:], "=", 2)
		o.key, _ = strconv.Atoi(p[0])
		if len(p) > 1 {
			o.val, _ = strconv.Atoi(p[1])
		}
		r = append(r, o)
	}
	return r
}

// value 0 stands for nil (an entry that exists, with a nil value)
func vobj(v int) collection.IObject {
	if v == 0 {
		return nil
	}
	return v
}

type sortedSUT interface {
	apply(o sop) error // performs the operation on both sides and compares
	observe(keys []int) error
	root() interface{}
	model() map[int]int
}

// map over ik
type smapSUT struct {
	m   *collection.SortedMap
	ref map[int]int
}

func (s *smapSUT) root() interface{}  { return s.m }
func (s *smapSUT) model() map[int]int { return s.ref }

func same(got collection.IObject, want int, exist bool) bool {
	if !exist {
		return got == nil
	}
	return got == vobj(want)
}

func (s *smapSUT) apply(o sop) error {
	old, ok := s.ref[o.key]
	switch o.op {
	case 'p':
		got := s.m.Put(ik(o.key), vobj(o.val))
		if !same(got, old, ok) {
			return bad("ret", "Put(%d) returns %v, want previous %v (existed %v)", o.key, got, vobj(old), ok)
		}
		s.ref[o.key] = o.val
	case 'r':
		got := s.m.Remove(ik(o.key))
		if !same(got, old, ok) {
			return bad("ret", "Remove(%d) returns %v, want %v (existed %v)", o.key, got, vobj(old), ok)
		}
		delete(s.ref, o.key)
	case 'g':
		got := s.m.Get(ik(o.key))
		if !same(got, old, ok) {
			return bad("ret", "Get(%d) returns %v, want %v (existed %v)", o.key, got, vobj(old), ok)
		}
	case 'i':
		it := s.m.Iterator()
		for i := 0; i < len(s.ref)+2; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
	case 'R':
		it := s.m.RangeIterator(ik(o.key), ik(o.key+5))
		for i := 0; i < 5; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
	}
	if s.m.Size() != len(s.ref) {
		return bad("size", "size %d after %v, want %d", s.m.Size(), o, len(s.ref))
	}
	return nil
}

func (s *smapSUT) observe(keys []int) error {
	for _, k := range keys {
		old, ok := s.ref[k]
		if got := s.m.Get(ik(k)); !same(got, old, ok) {
			return bad("get", "Get(%d) = %v, want %v (exists %v)", k, got, vobj(old), ok)
		}
	}
	if s.m.Size() != len(s.ref) {
		return bad("size", "size %d, want %d", s.m.Size(), len(s.ref))
	}
	return nil
}

// set over pk (identity of the stored key is observed)
type ssetSUT struct {
	s    *collection.SortedSet
	ref  map[int]int
	tags map[int]*pk
}

func (s *ssetSUT) root() interface{}  { return s.s }
func (s *ssetSUT) model() map[int]int { return s.ref }

func (s *ssetSUT) apply(o sop) error {
	_, ok := s.ref[o.key]
	prev := s.tags[o.key]
	switch o.op {
	case 'p':
		k := &pk{o.key, o.val}
		got := s.s.Put(k)
		if ok && (got == nil || got.(*pk) != prev) || !ok && got != nil {
			return bad("ret", "Put(%d) returns %v, want previously stored key %v", o.key, got, prev)
		}
		s.ref[o.key] = o.val
		s.tags[o.key] = k
	case 'r':
		got := s.s.Remove(&pk{o.key, -1})
		if ok && (got == nil || got.(*pk) != prev) || !ok && got != nil {
			return bad("ret", "Remove(%d) returns %v, want %v", o.key, got, prev)
		}
		delete(s.ref, o.key)
		delete(s.tags, o.key)
	case 'g':
		if got := s.s.Exist(&pk{o.key, -1}); got != ok {
			return bad("ret", "Exist(%d) = %v, want %v", o.key, got, ok)
		}
	case 'i':
		it := s.s.Iterator()
		for i := 0; i < len(s.ref)+2; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
	case 'R':
		it := s.s.RangeIterator(&pk{o.key, -1}, &pk{o.key + 5, -1})
		for i := 0; i < 5; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
	}
	if s.s.Size() != len(s.ref) {
		return bad("size", "size %d after %v, want %d", s.s.Size(), o, len(s.ref))
	}
	return nil
}

func (s *ssetSUT) observe(keys []int) error {
	for _, k := range keys {
		_, ok := s.ref[k]
		if got := s.s.Exist(&pk{k, -1}); got != ok {
			return bad("get", "Exist(%d) = %v, want %v", k, got, ok)
		}
	}
	return nil
}

func newSorted(kind string) sortedSUT {
	if kind == "set" {
		return &ssetSUT{s: collection.NewSortedSet(), ref: map[int]int{}, tags: map[int]*pk{}}
	}
	return &smapSUT{m: collection.NewSortedMap(), ref: map[int]int{}}
}

func replaySorted(kind string, ops []sop) (sortedSUT, error) {
	s := newSorted(kind)
	for _, o := range ops {
		if err := s.apply(o); err != nil {
			return s, err
		}
	}
	return s, nil
}

// explore does a breadth-first search over the histories of a sorted map/set,
// merging histories that lead to isomorphic implementation states, and calls
// visit once per state with the history that reaches it.
type bfsCfg struct {
	kind string
	keys int
	vals []int
}

func (c bfsCfg) name() string { return fmt.Sprintf("%s-k%d-v%d", c.kind, c.keys, len(c.vals)) }

// enumerates all operations
func (c bfsCfg) ops() []sop {
	var ops []sop
	for k := 1; k <= c.keys; k++ {
		for _, v := range c.vals {
			vv := v
			if vv == -1 { // one value per key
				vv = 100 + k
			}
			ops = append(ops, sop{'p', 2 * k, vv})
		}
		ops = append(ops, sop{'r', 2 * k, 0})
	}
	ops = append(ops, sop{'r', 1, 0}, sop{'r', 2*c.keys/2 + 1, 0}, sop{'r', 2*c.keys + 1, 0})
	// looking must not change anything, so it is a part of histories too
	for k := 1; k <= c.keys; k++ {
		ops = append(ops, sop{'g', 2 * k, 0})
	}
	ops = append(ops, sop{'g', 1, 0}, sop{'i', 0, 0}, sop{'R', 3, 0}, sop{'R', c.keys + 1, 0})
	return ops
}

func (c bfsCfg) probes() []int {
	var p []int
	for k := 1; k <= 2*c.keys+1; k++ {
		p = append(p, k)
	}
	return p
}

// bfs: all shards walk the state graph; a transition is executed (and
// checked) by every shard, the per-state visit is sharded.
func (w *W) bfsSorted(c bfsCfg, visit func(hist []sop, s sortedSUT) error) {
	suite := c.name()
	run := func(hist []sop, last *sop) (sortedSUT, error) {
		s, err := replaySorted(c.kind, hist)
		if err != nil {
			return s, err
		}
		if last != nil {
			err = s.apply(*last)
		}
		return s, err
	}
	if id, ok := w.Only(suite); ok {
		w.Exec(suite, func() string { return id }, func() error {
			s, err := run(parseOps(id), nil)
			if err != nil {
				return err
			}
			if err := s.observe(c.probes()); err != nil {
				return err
			}
			if visit != nil {
				return visit(parseOps(id), s)
			}
			return nil
		})
		return
	}
	if w.Replaying() {
		return
	}
	type node struct {
		hist []sop
	}
	seen := map[uint64]bool{}
	frontier := []node{{}}
	seen[fingerprint(false, newSorted(c.kind).root())] = true
	ops := c.ops()
	nst := 0
	for len(frontier) > 0 && !w.Expired() {
		var next []node
		for _, nd := range frontier {
			nst++
			if nst%w.N == w.Shard {
				hist := nd.hist
				w.Exec(suite, func() string { return opsString(hist) }, func() error {
					s, err := run(hist, nil)
					if err != nil {
						return err
					}
					w.traces++
					w.states++
					if err := s.observe(c.probes()); err != nil {
						return err
					}
					if visit != nil {
						return visit(hist, s)
					}
					return nil
				})
				if w.Expired() {
					return
				}
			}
			for i := range ops {
				hist := append(append([]sop{}, nd.hist...), ops[i])
				var fp uint64
				failed := false
				err := protect(func() error {
					s, err := run(nd.hist, &ops[i])
					if err != nil {
						return err
					}
					fp = fingerprint(false, s.root())
					return nil
				})
				if nst%w.N == w.Shard {
					w.transitions++
				}
				if err != nil {
					failed = true
					if nst%w.N == w.Shard {
						w.Exec(suite, func() string { return opsString(hist) }, func() error {
							_, err := run(nd.hist, &ops[i])
							return err
						})
					}
				}
				if !failed && !seen[fp] {
					seen[fp] = true
					next = append(next, node{hist})
				}
			}
			if w.stop {
				return
			}
		}
		frontier = next
	}
	w.Note("states_"+suite, 0)
	if w.Shard == 0 {
		w.Note("states_"+suite, int64(len(seen)))
	}
}

// fibonacci trees: the sparsest balanced trees; keys 1..n inserted so that no
// rotation happens.
func fibInsert(h, base int, right bool) (order []int, size int) {
	// returns keys (relative) in breadth-first order of the minimal AVL tree of height h
	var build func(h, lo int) *fibNode
	build = func(h, lo int) *fibNode {
		if h <= 0 {
			return nil
		}
		hl, hr := h-1, h-2
		if right {
			hl, hr = h-2, h-1
		}
		l := build(hl, lo)
		n := &fibNode{key: lo + l.size()}
		n.l = l
		n.r = build(hr, n.key+1)
		n.n = 1 + l.size() + n.r.size()
		return n
	}
	t := build(h, base)
	q := []*fibNode{t}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == nil {
			continue
		}
		order = append(order, x.key)
		q = append(q, x.l, x.r)
	}
	return order, t.size()
}

type fibNode struct {
	key, n int
	l, r   *fibNode
}

func (f *fibNode) size() int {
	if f == nil {
		return 0
	}
	return f.n
}

// seeds: histories leading to larger trees, from which all short operation
// sequences are explored.
func sortedSeeds(thorough bool) map[string][]sop {
	put := func(ks []int) []sop {
		var r []sop
		for _, k := range ks {
			r = append(r, sop{'p', 2 * k, 1000 + k})
		}
		return r
	}
	seq := func(a, b, st int) []int {
		var r []int
		for k := a; (st > 0 && k <= b) || (st < 0 && k >= b); k += st {
			r = append(r, k)
		}
		return r
	}
	seeds := map[string][]sop{}
	for h := 5; h <= 7; h++ {
		for _, right := range []bool{false, true} {
			o, _ := fibInsert(h, 1, right)
			seeds[fmt.Sprintf("fib%d%v", h, right)] = put(o)
		}
	}
	seeds["asc31"] = put(seq(1, 31, 1))
	seeds["desc31"] = put(seq(31, 1, -1))
	seeds["asc20"] = put(seq(1, 20, 1))
	seeds["zig24"] = put([]int{12, 13, 11, 14, 10, 15, 9, 16, 8, 17, 7, 18, 6, 19, 5, 20, 4, 21, 3, 22, 2, 23, 1, 24})
	if thorough {
		for h := 8; h <= 9; h++ {
			for _, right := range []bool{false, true} {
				o, _ := fibInsert(h, 1, right)
				seeds[fmt.Sprintf("fib%d%v", h, right)] = put(o)
			}
		}
		seeds["asc100"] = put(seq(1, 100, 1))
	}
	return seeds
}

func seedNames(m map[string][]sop) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func maxKey(ops []sop) int {
	m := 0
	for _, o := range ops {
		if o.key > m {
			m = o.key
		}
	}
	return m
}

func init() {
	register("C01", checkInfo{level: "model_checking",
		rule:  "breadth-first search over all histories of put/remove of a live map/set against a Go map; states merged by canonical deep dump of the real object; after every history all keys, absent neighbours and the size are observed; larger seed trees are explored to a fixed depth",
		assum: []string{"key objects implement a consistent total order", "single goroutine"}}, func(w *W) {
		cfgs := []bfsCfg{{"map", 5, []int{0, 1, 2}}, {"set", 7, []int{-1}}, {"map", 11, []int{-1}}}
		if !w.Quick() {
			cfgs = []bfsCfg{{"map", 6, []int{0, 1, 2}}, {"set", 9, []int{-1}}, {"map", 12, []int{-1}}, {"map", 13, []int{-1}}}
		}
		for _, c := range cfgs {
			w.bfsSorted(c, nil)
		}
		// larger trees: all sequences of d removals/insertions from a seed
		seeds := sortedSeeds(!w.Quick())
		for _, kind := range []string{"map", "set"} {
			for _, name := range seedNames(seeds) {
				seed := seeds[name]
				mk := maxKey(seed)
				depth := 2
				if mk <= 2*24 || (!w.Quick() && mk <= 2*34) {
					depth = 3
				}
				if kind == "set" {
					depth--
				}
				var probes []int
				for k := 1; k <= mk+1; k++ {
					probes = append(probes, k)
				}
				var cand []sop
				for k := 1; k <= mk/2; k++ {
					cand = append(cand, sop{'r', 2 * k, 0})
				}
				for k := 1; k <= mk+1; k += 2 {
					if depth < 3 || k%6 == 1 {
						cand = append(cand, sop{'p', k, 5000 + k})
					}
				}
				suite := "seed-" + kind + "-" + name
				var rec func(prefix []sop, d int)
				rec = func(prefix []sop, d int) {
					if d == 0 {
						p := append([]sop{}, prefix...)
						w.Case(suite, func() string { return opsString(p) }, func() error {
							s, err := replaySorted(kind, seed)
							if err != nil {
								return err
							}
							for _, o := range p {
								if err := s.apply(o); err != nil {
									return err
								}
								w.transitions++
							}
							w.traces++
							w.State(fingerprint(false, s.root()))
							return s.observe(probes)
						})
						return
					}
					for _, o := range cand {
						if w.stop {
							return
						}
						rec(append(prefix, o), d-1)
					}
				}
				rec(nil, depth)
			}
		}
		// tear down completely in several orders, observing all the way
		for _, name := range seedNames(seeds) {
			seed := seeds[name]
			n := maxKey(seed) / 2
			for _, mul := range []int{1, 3, 5, 7, 11} {
				for _, dir := range []int{1, -1} {
					mul, dir := mul, dir
					w.Case("teardown-"+name, func() string { return fmt.Sprint(mul * dir) }, func() error {
						s, err := replaySorted("map", seed)
						if err != nil {
							return err
						}
						var order []int
						used := map[int]bool{}
						for i := 0; len(order) < n; i++ {
							k := ((i*mul*dir)%n + n) % n
							for used[k] {
								k = (k + 1) % n
							}
							used[k] = true
							order = append(order, k+1)
						}
						var probes []int
						for k := 0; k <= 2*n+1; k++ {
							probes = append(probes, k)
						}
						for _, k := range order {
							if err := s.apply(sop{'r', 2 * k, 0}); err != nil {
								return err
							}
							w.transitions++
							if err := s.observe(probes); err != nil {
								return err
							}
							w.State(fingerprint(false, s.root()))
						}
						w.traces++
						return nil
					})
				}
			}
		}
		// every operation at every size up to a few thousand
		n := 4300
		if !w.Quick() {
			n = 70000
		}
		for _, kind := range []string{"map", "set"} {
			for _, ins := range walkNames {
				for _, del := range []string{"asc", "desc", "mul", "out"} {
					kind, ins, del := kind, ins, del
					w.Case("walk-"+kind, func() string { return ins + "/" + del }, func() error {
						s := newSorted(kind)
						err := sizeWalk(n, ins, del, s.apply, func(keys []int) error { return s.observe(keys) }, &w.transitions)
						w.traces++
						return err
					})
				}
			}
		}
		pn := 12
		if !w.Quick() {
			pn = 22
		}
		for _, kind := range []string{"map", "set"} {
			kind := kind
			w.probes("probe-"+kind, pn, "giR", func() func(sop) error { return newSorted(kind).apply })
		}
		// several maps at once do not influence each other
		w.Case("two-maps", func() string { return "" }, func() error {
			a, b := newSorted("map"), newSorted("map")
			for i := 0; i < 200; i++ {
				if err := a.apply(sop{'p', (i * 37) % 101, i + 1}); err != nil {
					return err
				}
				if err := b.apply(sop{'p', (i * 53) % 103, i + 1}); err != nil {
					return err
				}
				if i%3 == 0 {
					if err := a.apply(sop{'r', (i * 11) % 101, 0}); err != nil {
						return err
					}
				}
			}
			var probes []int
			for k := 0; k < 110; k++ {
				probes = append(probes, k)
			}
			if err := a.observe(probes); err != nil {
				return err
			}
			return b.observe(probes)
		})
	})

	register("C27", checkInfo{level: "model_checking",
		rule:  "same state spaces as C01/C03; the number of comparisons (equality tests) the library makes on harness-supplied keys is counted for every operation in every state and compared with a bound 4*log2(n+2)+6 for sorted maps, and a constant for hash maps with consecutive hash values",
		assum: []string{"cost is measured in calls of the key's Compare/Equal methods"}}, checkCost)

	register("C02", checkInfo{level: "model_checking",
		rule:  "for every reachable tree state: full iteration and every range (start,end over all keys, gaps and absent), every interleaving of Next/Peek/HasNext up to a length; compared with the sorted model",
		assum: []string{"the tree is not modified while iterated"}}, checkSortedIter)
}

// ---------------------------------------------------------------------------
// walk performs every operation at every size from 1 to n and back to 0.  Keys are even, odd ones
// are absent.

var walkNames = []string{"asc", "desc", "in", "mul", "out", "zig"}

// walkOrder is a permutation of 0..n-1.
func walkOrder(name string, n int) func(i int) int {
	mul := 7919
	for gcd(mul, n) != 1 {
		mul += 2
	}
	return map[string]func(i int) int{
		"asc":  func(i int) int { return i },
		"desc": func(i int) int { return n - 1 - i },
		"zig":  func(i int) int { return (n-1)/2 + (i+1)/2*(2*(i&1)-1) },
		"mul":  func(i int) int { return int(int64(i) * int64(mul) % int64(n)) },
		"out":  func(i int) int { return (i&1)*(n-1) + (1-2*(i&1))*(i/2) },
		"in":   func(i int) int { return i/2 + (i&1)*((n+1)/2) },
	}[name]
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// probes enumerates long histories in which only a few chosen operations look: everything is put in
// one order and most is removed in another, a key is looked up (or the whole gone through) at one
// position, changed at a later one, and looked up then and at the end.  A cache that survives
// reorganisation shows here, where regular looking at everything would renew it.
func (w *W) probes(suite string, n int, looks string, mk func() (apply func(sop) error)) {
	for oi, ord := range walkNames {
		in, out := walkOrder(ord, n), walkOrder(walkNames[(oi*5+1)%len(walkNames)], n)
		var base []sop
		for i := 0; i < n; i++ {
			base = append(base, sop{'p', 2 * in(i), i + 1})
		}
		for i := 0; i < n-1; i++ {
			base = append(base, sop{'r', 2 * out(i), 0})
		}
		for p := 1; p < len(base); p++ {
			p, ord := p, ord
			w.Case(suite, func() string { return fmt.Sprintf("%s, looking after %d", ord, p) }, func() error {
				for q := p; q < len(base); q++ {
					for g := -1; g < 2*n; g++ {
						if g > 0 && g%2 == 1 && g%8 != 3 { // some keys that are not there
							continue
						}
						for _, look := range looks {
							for _, change := range []string{"p", "r", "rp", "pp", ""} {
								apply := mk()
								val := 1000
								var done []sop
								do := func(o sop) error {
									w.transitions++
									done = append(done, o)
									if err := apply(o); err != nil {
										return bad("probe", "%v: %v", opsString(done), err)
									}
									return nil
								}
								for i, o := range base {
									if i == p {
										if err := do(sop{byte(look), g, 0}); err != nil {
											return err
										}
									}
									if i == q {
										for _, c := range change {
											val++
											if err := do(sop{byte(c), g, val}); err != nil {
												return err
											}
										}
										if err := do(sop{'g', g, 0}); err != nil {
											return err
										}
									}
									if err := do(o); err != nil {
										return err
									}
								}
								if err := do(sop{'g', g, 0}); err != nil {
									return err
								}
								if g == 4 {
									for k := -1; k <= 2*n; k++ {
										if err := do(sop{'g', k, 0}); err != nil {
											return err
										}
									}
								}
							}
						}
					}
				}
				w.traces++
				w.Outcome(suite, ord, p)
				return nil
			})
		}
	}
}

func sizeWalk(n int, ins, del string, apply func(sop) error, observe func([]int) error, steps *int64) error {
	val := 0
	step := func(what string, size int, o sop) error {
		*steps++
		if err := apply(o); err != nil {
			return bad("walk", "%s, size about %d, %v: %v", what, size, o, err)
		}
		return nil
	}
	put := func(what string, size, k int) error { val++; return step(what, size, sop{'p', k, val}) }
	in, out := walkOrder(ins, n), walkOrder(del, n)
	all := func(size int) error {
		var keys []int
		for k := -1; k <= 2*n+1; k += 1 + 2*n/3000 {
			keys = append(keys, k)
		}
		if err := observe(keys); err != nil {
			return bad("walk", "size %d: %v", size, err)
		}
		return nil
	}
	for i := 0; i < n; i++ {
		k := 2 * in(i)
		mid := 2 * in(i*5/8)
		odd := 2*in(i/3) + 1
		if err := put("insert", i, k); err != nil {
			return err
		}
		for _, o := range []sop{{'p', k, 0}, {'g', k, 0}, {'p', 2 * in(0), -1}, {'p', mid, -1}, {'g', mid, 0}, {'g', odd, 0},
			{'r', odd, 0}, {'r', mid, 0}, {'g', mid, 0}, {'r', mid, 0}, {'p', mid, -1}, {'g', k, 0}, {'r', k, 0}, {'p', k, -1},
			{'p', odd, -1}, {'p', odd, -1}, {'g', odd, 0}, {'r', odd, 0}, {'g', -3, 0}, {'r', 2*n + 5, 0}} {
			if o.op == 'p' && o.val == -1 {
				val++
				o.val = val
			}
			if err := step("growing", i+1, o); err != nil {
				return err
			}
		}
		for j := 0; j < 8; j++ { // take out and put back entries of all ages
			k := 2 * in(i-i*j/8)
			val++
			for _, o := range []sop{{'r', k, 0}, {'g', k, 0}, {'p', k, val}} {
				if err := step("growing", i+1, o); err != nil {
					return err
				}
			}
		}
		if i%1999 == 77 || i == n-1 {
			if err := all(i + 1); err != nil {
				return err
			}
		}
	}
	for i := 0; i < n; i++ {
		k := 2 * out(i)
		if err := step("shrinking", n-i, sop{'r', k, 0}); err != nil {
			return err
		}
		next := 2 * out((i+n)/2)
		for _, o := range []sop{{'g', k, 0}, {'r', k, 0}, {'g', next, 0}, {'p', next, -1}, {'g', k + 1, 0}} {
			if o.op == 'p' {
				if i >= n-1 {
					continue
				}
				val++
				o.val = val
			}
			if err := step("shrinking", n-i-1, o); err != nil {
				return err
			}
		}
		if i%1999 == 77 || i == n-1 {
			if err := all(n - i - 1); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// C02

type siter interface {
	next() (int, interface{}, bool)
	peek() (int, interface{}, bool)
	has() bool
}

type mapIter struct{ it collection.ISortedMapIterator }

func (m mapIter) conv(k collection.IComparable, v collection.IObject) (int, interface{}, bool) {
	if k == nil {
		return 0, v, false
	}
	return int(k.(ik)), v, true
}
func (m mapIter) next() (int, interface{}, bool) { return m.conv(m.it.Next()) }
func (m mapIter) peek() (int, interface{}, bool) { return m.conv(m.it.Peek()) }
func (m mapIter) has() bool                      { return m.it.HasNext() }

type setIter struct{ it collection.IIterator }

func (m setIter) conv(k collection.IObject) (int, interface{}, bool) {
	if k == nil {
		return 0, nil, false
	}
	p := k.(*pk)
	if p == nil {
		return 0, nil, false
	}
	return p.k, p.tag, true
}
func (m setIter) next() (int, interface{}, bool) { return m.conv(m.it.Next()) }
func (m setIter) peek() (int, interface{}, bool) { return m.conv(m.it.Peek()) }
func (m setIter) has() bool                      { return m.it.HasNext() }

const noKey = math.MinInt32

func mkIter(s sortedSUT, start, end int) siter {
	switch x := s.(type) {
	case *smapSUT:
		var a, b collection.IComparable
		if start != noKey {
			a = ik(start)
		}
		if end != noKey {
			b = ik(end)
		}
		if a == nil && b == nil && start == noKey {
			return mapIter{x.m.Iterator()}
		}
		return mapIter{x.m.RangeIterator(a, b)}
	case *ssetSUT:
		var a, b collection.IComparable
		if start != noKey {
			a = &pk{start, -5}
		}
		if end != noKey {
			b = &pk{end, -6}
		}
		if a == nil && b == nil {
			return setIter{x.s.Iterator()}
		}
		return setIter{x.s.RangeIterator(a, b)}
	}
	return nil
}

func wantRange(m map[int]int, start, end int) []int {
	var ks []int
	for k := range m {
		if (start == noKey || k >= start) && (end == noKey || k < end) {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	return ks
}

// drive runs an iterator with a call pattern ("n","p","h" repeated) against the expectation
func drive(it siter, want []int, m map[int]int, pattern string) error {
	pos := 0
	for i, c := range pattern {
		switch c {
		case 'h':
			if got := it.has(); got != (pos < len(want)) {
				return bad("has", "call %d of %s: HasNext = %v at position %d of %v", i, pattern, got, pos, want)
			}
		case 'p', 'n':
			var k int
			var v interface{}
			var ok bool
			if c == 'n' {
				k, v, ok = it.next()
			} else {
				k, v, ok = it.peek()
			}
			if ok != (pos < len(want)) {
				return bad("iter", "call %d of %s: yields (%v,%v,%v) at position %d of %v", i, pattern, k, v, ok, pos, want)
			}
			if ok && k != want[pos] {
				return bad("iter", "call %d of %s: yields key %v, want %v (position %d of %v)", i, pattern, k, want[pos], pos, want)
			}
			if ok && v != vobj(m[k]) {
				return bad("iter", "call %d of %s: key %v has value %v, want %v", i, pattern, k, v, vobj(m[k]))
			}
			if !ok && v != nil {
				return bad("iter", "call %d of %s: exhausted but yields value %v", i, pattern, v)
			}
			if c == 'n' && pos < len(want) {
				pos++
			}
		}
	}
	return nil
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// all words over {n,p,h} of length l
func words(l int) []string {
	if l == 0 {
		return []string{""}
	}
	var r []string
	for _, x := range words(l - 1) {
		r = append(r, x+"n", x+"p", x+"h")
	}
	return r
}

func checkSortedIter(w *W) {
	type cfg struct {
		c    bfsCfg
		word int // explore all call patterns of this length
	}
	cfgs := []cfg{{bfsCfg{"map", 3, []int{0, 1}}, 7}, {bfsCfg{"set", 4, []int{-1}}, 6}, {bfsCfg{"map", 5, []int{-1}}, 5}, {bfsCfg{"map", 8, []int{-1}}, 0}, {bfsCfg{"set", 7, []int{-1}}, 0}}
	if !w.Quick() {
		cfgs = []cfg{{bfsCfg{"map", 3, []int{0, 1}}, 9}, {bfsCfg{"map", 5, []int{-1}}, 8}, {bfsCfg{"set", 4, []int{-1}}, 7}, {bfsCfg{"map", 10, []int{-1}}, 0}, {bfsCfg{"set", 9, []int{-1}}, 0}}
	}
	iterAll := func(s sortedSUT, probes []int, ws []string) error {
		m := s.model()
		pr := append([]int{noKey}, probes...)
		for _, a := range pr {
			for _, b := range pr {
				if a != noKey && b != noKey && a > b {
					continue
				}
				want := wantRange(m, a, b)
				n := len(want)
				pats := ws
				if pats == nil {
					pats = []string{rep("n", n+3), rep("hpn", n+2), rep("pphhn", n+1) + "hpnphn"}
				}
				for _, p := range pats {
					if err := drive(mkIter(s, a, b), want, m, p); err != nil {
						return bad("range", "start %v end %v: %v", a, b, err)
					}
					w.transitions += int64(len(p))
				}
				w.Note("iterators", int64(len(pats)))
				w.Outcome(fmt.Sprint(want))
			}
		}
		return nil
	}
	for _, c := range cfgs {
		var ws []string
		if c.word > 0 {
			ws = words(c.word)
		}
		w.bfsSorted(c.c, func(hist []sop, s sortedSUT) error {
			if err := iterAll(s, c.c.probes(), ws); err != nil {
				return err
			}
			if err := s.observe(c.c.probes()); err != nil {
				return bad("modified", "after iterating, %v", err)
			}
			return nil
		})
	}
	// two iterators over the same tree do not disturb each other
	for _, kind := range []string{"map", "set"} {
		kind := kind
		for n := 0; n <= 5; n++ {
			n := n
			for _, wd := range []string{"aabb", "abab", "abba", "aaabbb", "ababab"} {
				wd := wd
				w.Case("two-iters", func() string { return fmt.Sprintf("%s n=%d %s", kind, n, wd) }, func() error {
					s := newSorted(kind)
					for k := 1; k <= n; k++ {
						if err := s.apply(sop{'p', 2 * k, 100 + k}); err != nil {
							return err
						}
					}
					its := map[rune]siter{'a': mkIter(s, noKey, noKey), 'b': mkIter(s, 3, noKey)}
					wants := map[rune][]int{'a': wantRange(s.model(), noKey, noKey), 'b': wantRange(s.model(), 3, noKey)}
					for _, c := range rep(wd, 3) {
						exp := wants[c]
						if err := drive(its[c], exp, s.model(), "phn"); err != nil {
							return err
						}
						if len(exp) > 0 {
							wants[c] = exp[1:]
						}
					}
					return nil
				})
			}
		}
	}
	// larger trees
	seeds := sortedSeeds(!w.Quick())
	for _, kind := range []string{"map", "set"} {
		for _, name := range seedNames(seeds) {
			seed := seeds[name]
			mk := maxKey(seed)
			for del := 0; del <= mk/2; del++ {
				del := del
				w.Case("seed-"+kind+"-"+name, func() string { return fmt.Sprint("r", 2*del) }, func() error {
					s, err := replaySorted(kind, seed)
					if err != nil {
						return err
					}
					if del > 0 {
						if err := s.apply(sop{'r', 2 * del, 0}); err != nil {
							return err
						}
					}
					var probes []int
					for k := 1; k <= mk+1; k++ {
						probes = append(probes, k)
					}
					w.traces++
					w.State(fingerprint(false, s.root()))
					return iterAll(s, probes, nil)
				})
			}
		}
	}
	// every size up to N, and a few large ones
	N := 1100
	if !w.Quick() {
		N = 5000
	}
	for _, kind := range []string{"map", "set"} {
		for _, ord := range walkNames {
			kind, ord := kind, ord
			w.Case("sizes-"+kind, func() string { return ord }, func() error {
				s := newSorted(kind)
				in := walkOrder(ord, N)
				at := func(n int) error {
					var sorted []int
					for k := range s.model() {
						sorted = append(sorted, k)
					}
					sort.Ints(sorted)
					lo, hi := sorted[n/3], sorted[n-1-n/7]
					for i, r := range [][3]int{{noKey, noKey, 0}, {lo, noKey, 0}, {noKey, hi + 1, 0}, {lo + 1, hi, 1}, {hi, hi + 5, 1}, {sorted[n-1] + 1, noKey, 1}} {
						a, b := r[0], r[1]
						if a != noKey && b != noKey && a > b {
							continue
						}
						var want []int
						for _, k := range sorted {
							if (a == noKey || k >= a) && (b == noKey || k < b) {
								want = append(want, k)
							}
						}
						p := rep("n", len(want)+2)
						if (n+i)%4 == 0 {
							p = rep("hppn", len(want)+2)
						}
						if err := drive(mkIter(s, a, b), want, s.model(), p); err != nil {
							return bad("sizes", "%d entries inserted in order %s, range %v..%v: %s", n, ord, a, b, trunc(err.Error(), 300))
						}
						w.transitions += int64(len(p))
					}
					return nil
				}
				for i := 0; i < N; i++ {
					if err := s.apply(sop{'p', 2 * in(i), i + 1}); err != nil {
						return err
					}
					if i < 80 || i%3 == 0 || i&(i+1) == 0 || i&(i+2) == 0 {
						if err := at(i + 1); err != nil {
							return err
						}
					}
				}
				w.traces++
				if ord != "mul" && ord != "out" {
					return nil
				}
				for i := N; i < 9*N; i++ {
					if err := s.apply(sop{'p', 2 * i, i + 1}); err != nil {
						return err
					}
					if i&(i+1) == 0 || i%1500 == 0 {
						if err := at(i + 1); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	// an end before the start is refused, or yields nothing
	w.Case("inverted", func() string { return "" }, func() error {
		s, _ := replaySorted("map", parseOps("p2=1,p4=2,p6=3"))
		defer func() { recover() }()
		it := mkIter(s, 5, 3)
		if k, v, ok := it.next(); ok {
			return bad("inverted", "inverted range yields %v %v", k, v)
		}
		return nil
	})
}

// ---------------------------------------------------------------------------
// C27

func sortedBound(n int) int {
	return int(4*math.Log2(float64(n+2))) + 6
}

func checkCost(w *W) {
	measure := func(s sortedSUT, o sop, hist []sop) error {
		n := len(s.model())
		cmpCount = 0
		if err := s.apply(o); err != nil {
			return nil // C01's business
		}
		if cmpCount > sortedBound(n) {
			return bad("cost", "%v on %d entries makes %d comparisons, more than %d", o, n, cmpCount, sortedBound(n))
		}
		w.Outcome(n, cmpCount)
		return nil
	}
	c := bfsCfg{"map", 9, []int{-1}}
	if !w.Quick() {
		c = bfsCfg{"map", 12, []int{-1}}
	}
	w.bfsSorted(c, func(hist []sop, s sortedSUT) error {
		for _, p := range c.probes() {
			if err := measure(s, sop{'g', p, 0}, hist); err != nil {
				return err
			}
		}
		return nil
	})
	// long histories, all of them deterministic patterns; every operation measured
	N := 30000
	if !w.Quick() {
		N = 150000
	}
	pats := map[string]func(i int) int{
		"asc":  func(i int) int { return i },
		"desc": func(i int) int { return N - i },
		"zig":  func(i int) int { return N/2 + (i+1)/2*(1-2*(i&1)) },
		"mul":  func(i int) int { return i * 7919 % N },
		"out":  func(i int) int { return (i&1)*N + (1-2*(i&1))*(i/2) },
		"in2":  func(i int) int { return i/2 + (i&1)*(N/2) },
	}
	var names []string
	for n := range pats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, ins := range names {
		for _, del := range append(names, "none") {
			ins, del := ins, del
			w.Case("long-sorted", func() string { return ins + "/" + del }, func() error {
				s := newSorted("map")
				for i := 0; i < N; i++ {
					if err := measure(s, sop{'p', pats[ins](i), i + 1}, nil); err != nil {
						return bad("cost", "insert %s step %d: %v", ins, i, err)
					}
				}
				for i := 0; i < N && del != "none"; i++ {
					if err := measure(s, sop{'r', pats[del](i), 0}, nil); err != nil {
						return bad("cost", "insert %s, delete %s step %d: %v", ins, del, i, err)
					}
					if i%16 == 0 || len(s.model()) < 40 {
						for k := 0; k < N; k += N / 25 {
							if err := measure(s, sop{'g', k, 0}, nil); err != nil {
								return bad("cost", "insert %s, delete %s step %d: %v", ins, del, i, err)
							}
						}
					}
				}
				for k := 0; k < N; k++ {
					if err := measure(s, sop{'g', k, 0}, nil); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// seeds with all pairs of removals
	seeds := sortedSeeds(!w.Quick())
	for _, name := range seedNames(seeds) {
		seed := seeds[name]
		mk := maxKey(seed)
		for a := 1; a <= mk/2; a++ {
			for b := 0; b <= mk/2; b++ {
				a, b := a, b
				w.Case("seed-"+name, func() string { return fmt.Sprintf("r%d,r%d", 2*a, 2*b) }, func() error {
					s, _ := replaySorted("map", seed)
					s.apply(sop{'r', 2 * a, 0})
					s.apply(sop{'r', 2 * b, 0})
					w.traces++
					for k := 1; k <= mk+1; k++ {
						if err := measure(s, sop{'g', k, 0}, nil); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	// the height after removing a lot: rebuild to n entries, delete down to m in all residue classes
	for _, step := range []int{2, 3, 4, 5, 7, 8, 16, 31} {
		for keep := 0; keep < step; keep++ {
			step, keep := step, keep
			w.Case("sieve", func() string { return fmt.Sprintf("%d mod %d", keep, step) }, func() error {
				s := newSorted("map")
				n := 600
				for i := 0; i < n; i++ {
					s.apply(sop{'p', i, i + 1})
				}
				for i := 0; i < n; i++ {
					if i%step != keep {
						s.apply(sop{'r', i, 0})
					}
				}
				for k := 0; k < n; k++ {
					if err := measure(s, sop{'g', k, 0}, nil); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	checkHashCost(w)
}
