package main

import (
	crand "crypto/rand"
	"fmt"
	"sort"
	"strings"

	"../../repo/src/collection"
)

// ---------------------------------------------------------------------------
// the random source is owned by the harness

type fixedReader struct {
	pat []byte
	pos int
}

func (r *fixedReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.pat[r.pos%len(r.pat)]
		if r.pos >= 1024 { // code that draws until it likes the number comes to an end
			p[i] += byte((r.pos - 1024) * 101 >> 3)
		}
		r.pos++
	}
	return len(p), nil
}

func setRand(pat ...byte) {
	crand.Reader = &fixedReader{pat: append([]byte{}, pat...)}
}

// hk: harness key with a chosen hash value (identity of the object observable)
type hk struct {
	k    int
	hash uint32
	tag  int
}

var eqCount, hashCount int

func (k *hk) Equal(o collection.IObject) bool {
	eqCount++
	x, ok := o.(*hk)
	return ok && x != nil && x.k == k.k
}

func (k *hk) HashUint32(f func([]byte) uint32) uint32 {
	hashCount++
	return k.hash
}

// hashing schemes: key number -> hash value
var hashFns = map[string]func(k int) uint32{
	"const":  func(k int) uint32 { return 7 },
	"seq":    func(k int) uint32 { return uint32(k) },
	"mod2":   func(k int) uint32 { return uint32(k%2) * 30 },
	"mod3":   func(k int) uint32 { return uint32(k % 3) },
	"cap":    func(k int) uint32 { return uint32(k) * 30 }, // collide in 10, 15, spread elsewhere
	"big":    func(k int) uint32 { return 0xffffffff - uint32(k)*180 },
	"seeded": nil, // real murmur of the key's bytes
}

type hcfg struct {
	kind       string // map, set
	fn         string
	capacity   int
	lf, mult   float32
	deflt      bool // default constructor
	keys, vals int
	seed       byte
	maxStates  int
}

func (c hcfg) name() string {
	d := fmt.Sprintf("cap%d-lf%v-m%v", c.capacity, c.lf, c.mult)
	if c.deflt {
		d = "default"
	}
	return fmt.Sprintf("%s-%s-%s-k%d-v%d-s%x", c.kind, c.fn, d, c.keys, c.vals, c.seed)
}

type hashSUT struct {
	c    hcfg
	m    *collection.HashMap
	s    *collection.HashSet
	ref  map[int]int
	objs map[int]*hk
}

func newHashSUT(c hcfg) *hashSUT {
	setRand(c.seed)
	h := &hashSUT{c: c, ref: map[int]int{}, objs: map[int]*hk{}}
	switch {
	case c.kind == "map" && c.deflt:
		h.m = collection.NewHashMap()
	case c.kind == "map":
		h.m = collection.NewCustomHashMap(c.capacity, c.lf, c.mult)
	case c.deflt:
		h.s = collection.NewHashSet()
	default:
		h.s = collection.NewCustomHashSet(c.capacity, c.lf, c.mult)
	}
	return h
}

type rk struct {
	b   []byte
	tag int
}

func (c hcfg) key(k, tag int) collection.IHashable {
	if f := hashFns[c.fn]; f != nil {
		return &hk{k: k, hash: f(k), tag: tag}
	}
	return collection.NewHashableByteSlice([]byte(fmt.Sprintf("key-%d", k)))
}

func (h *hashSUT) root() interface{} {
	if h.m != nil {
		return h.m
	}
	return h.s
}

func (h *hashSUT) size() int {
	if h.m != nil {
		return h.m.Size()
	}
	return h.s.Size()
}

func (h *hashSUT) apply(o sop) error {
	old, ok := h.ref[o.key]
	key := h.c.key(o.key, o.val)
	if h.m != nil {
		switch o.op {
		case 'p':
			if got := h.m.Put(key, vobj(o.val)); !same(got, old, ok) {
				return bad("ret", "Put(%d) returns %v, want %v (existed %v)", o.key, got, vobj(old), ok)
			}
			h.ref[o.key] = o.val
		case 'r':
			if got := h.m.Remove(key); !same(got, old, ok) {
				return bad("ret", "Remove(%d) returns %v, want %v (existed %v)", o.key, got, vobj(old), ok)
			}
			delete(h.ref, o.key)
		case 'g':
			if got := h.m.Get(key); !same(got, old, ok) {
				return bad("ret", "Get(%d) returns %v, want %v (existed %v)", o.key, got, vobj(old), ok)
			}
		}
	} else {
		prevOK := func(got collection.IHashable) bool {
			if !ok {
				return got == nil
			}
			if got == nil {
				return false
			}
			if p, isHk := got.(*hk); isHk {
				return p == h.objs[o.key]
			}
			return got.Equal(key)
		}
		switch o.op {
		case 'p':
			got := h.s.Put(key)
			if !prevOK(got) {
				return bad("ret", "Put(%d) returns %v, want the stored key (existed %v)", o.key, got, ok)
			}
			h.ref[o.key] = o.val
			if k, isHk := key.(*hk); isHk {
				h.objs[o.key] = k
			}
		case 'r':
			got := h.s.Remove(key)
			if !prevOK(got) {
				return bad("ret", "Remove(%d) returns %v, want the stored key (existed %v)", o.key, got, ok)
			}
			delete(h.ref, o.key)
			delete(h.objs, o.key)
		case 'g':
			if got := h.s.Exist(key); got != ok {
				return bad("ret", "Exist(%d) = %v, want %v", o.key, got, ok)
			}
		}
	}
	if o.op == 'i' {
		h.iterate()
	}
	if h.size() != len(h.ref) {
		return bad("size", "size %d after %v, want %d", h.size(), o, len(h.ref))
	}
	return nil
}

// iterate goes through the table; what comes out is the business of C04
func (h *hashSUT) iterate() {
	if h.m != nil {
		it := h.m.Iterator()
		for i := 0; i < len(h.ref)+2; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
	} else {
		it := h.s.Iterator()
		for i := 0; i < len(h.ref)+2; i++ {
			it.Peek()
			it.HasNext()
			it.Next()
		}
	}
}

func (h *hashSUT) observe(n int) error {
	for k := 0; k <= n+1; k++ {
		if err := h.apply(sop{'g', k, 0}); err != nil {
			return bad("get", "%v", err)
		}
	}
	return nil
}

func replayHash(c hcfg, ops []sop) (*hashSUT, error) {
	h := newHashSUT(c)
	for _, o := range ops {
		if err := h.apply(o); err != nil {
			return h, err
		}
	}
	return h, nil
}

// bfsHash explores every history of one configuration.
func (w *W) bfsHash(c hcfg, visit func(h *hashSUT) error) {
	suite := c.name()
	if id, ok := w.Only(suite); ok {
		w.Exec(suite, func() string { return id }, func() error {
			h, err := replayHash(c, parseOps(id))
			if err != nil {
				return err
			}
			if err := h.observe(c.keys); err != nil {
				return err
			}
			if visit != nil {
				return visit(h)
			}
			return nil
		})
		return
	}
	if w.Replaying() {
		return
	}
	var ops []sop
	for k := 1; k <= c.keys; k++ {
		if c.vals == 1 {
			ops = append(ops, sop{'p', k, 100 + k})
		} else {
			for v := 0; v < c.vals; v++ {
				ops = append(ops, sop{'p', k, v})
			}
		}
		ops = append(ops, sop{'r', k, 0})
	}
	ops = append(ops, sop{'r', 0, 0}, sop{'r', c.keys + 1, 0})
	// looking must not change anything, so it is a part of histories too
	for k := 0; k <= c.keys; k++ {
		ops = append(ops, sop{'g', k, 0})
	}
	ops = append(ops, sop{'i', 0, 0})
	seen := map[uint64]bool{fingerprint(false, newHashSUT(c).root()): true}
	frontier := [][]sop{{}}
	for len(frontier) > 0 && !w.Expired() {
		var next [][]sop
		for _, hist := range frontier {
			w.Exec(suite, func() string { return opsString(hist) }, func() error {
				h, err := replayHash(c, hist)
				if err != nil {
					return err
				}
				w.traces++
				if err := h.observe(c.keys); err != nil {
					return err
				}
				if visit != nil {
					return visit(h)
				}
				return nil
			})
			for _, o := range ops {
				hh := append(append([]sop{}, hist...), o)
				var fp uint64
				err := protect(func() error {
					h, err := replayHash(c, hh)
					if err == nil {
						fp = fingerprint(false, h.root())
					}
					return err
				})
				w.transitions++
				if err != nil {
					w.Exec(suite, func() string { return opsString(hh) }, func() error {
						_, err := replayHash(c, hh)
						return err
					})
					continue
				}
				if !seen[fp] {
					seen[fp] = true
					if c.maxStates > 0 && len(seen) > c.maxStates {
						w.Note("truncated_spaces", 1)
						w.exhaustive = false
						w.states += int64(len(seen))
						return
					}
					next = append(next, hh)
				}
			}
			if w.stop || w.Expired() {
				return
			}
		}
		frontier = next
	}
	w.states += int64(len(seen))
	w.Note("configurations", 1)
}

// longHist: a long deterministic history (grow, churn, shrink, regrow), every
// step checked and the whole content observed regularly.
func longHist(n int, kind string) []sop {
	var ops []sop
	switch kind {
	case "growshrink":
		for i := 1; i <= n; i++ {
			ops = append(ops, sop{'p', i, i})
		}
		for i := 1; i <= n; i++ {
			ops = append(ops, sop{'r', i, 0})
		}
		for i := n; i >= 1; i-- {
			ops = append(ops, sop{'p', i, i + 5})
		}
		for i := n; i >= 1; i-- {
			ops = append(ops, sop{'r', i, 0})
		}
	case "saw":
		for r := 1; r <= 6; r++ {
			for i := 1; i <= n*r/6; i++ {
				ops = append(ops, sop{'p', i, i * r})
			}
			for i := 1; i <= n*r/6; i++ {
				if (i*7+r)%4 != 0 {
					ops = append(ops, sop{'r', i, 0})
				}
			}
		}
	case "churn":
		for i := 1; i <= 4*n; i++ {
			ops = append(ops, sop{'p', i * 13 % n, i})
			if i > n/2 {
				ops = append(ops, sop{'r', (i - n/2) * 29 % n, 0})
			}
		}
	}
	return ops
}

func hashCfgs(quick bool) []hcfg {
	var cs []hcfg
	// growth-rich: low load factor and multiplier; shrink-rich
	for _, kind := range []string{"map", "set"} {
		for _, fn := range []string{"seq", "mod2", "mod3", "cap", "big", "const", "seeded"} {
			for _, p := range []struct {
				cap      int
				lf, mult float32
				d        bool
			}{{10, 0.5, 1.2, false}, {0, 0, 0, true}, {16, 1, 5, false}, {11, 0.75, 1.5, false}, {25, 0.6, 1.3, false}, {40, 0.5, 1.2, false}} {
				keys := 6
				switch fn {
				case "const":
					keys = 5
				case "seq", "big", "seeded":
					keys = 7
					if !quick {
						keys = 8
					}
				}
				if fn == "cap" || fn == "mod2" {
					keys = 6
				}
				if !quick {
					keys++
				}
				if p.d && keys < 8 {
					// the default table grows with the 8th entry
					if fn == "seq" || fn == "big" {
						keys = 8
					}
				}
				cs = append(cs, hcfg{kind: kind, fn: fn, capacity: p.cap, lf: p.lf, mult: p.mult, deflt: p.d, keys: keys, vals: 1, seed: 0x5a, maxStates: 400000})
			}
		}
		for _, seed := range []byte{0, 0xff} {
			cs = append(cs, hcfg{kind: kind, fn: "seeded", capacity: 10, lf: 0.5, mult: 1.2, keys: 7, vals: 1, seed: seed})
		}
	}
	// several values per key (including nil)
	cs = append(cs, hcfg{kind: "map", fn: "cap", capacity: 10, lf: 0.5, mult: 1.5, keys: 5, vals: 2, seed: 1, maxStates: 400000},
		hcfg{kind: "map", fn: "mod2", capacity: 10, lf: 0.5, mult: 1.2, keys: 4, vals: 3, seed: 1},
		hcfg{kind: "map", fn: "const", capacity: 10, lf: 0.5, mult: 1.2, keys: 3, vals: 3, seed: 1})
	return cs
}

// configurations for long histories
func longCfgs() []hcfg {
	var cs []hcfg
	for _, kind := range []string{"map", "set"} {
		for _, fn := range []string{"seq", "mod3", "cap", "big", "seeded"} {
			for _, capa := range []int{-5, 0, 10, 13, 100, 1000} {
				for _, lf := range []float32{-1, 0.3, 0.5, 0.75, 1, 3} {
					for _, m := range []float32{-2, 0, 1, 1.2, 1.5, 2, 5, 100} {
						cs = append(cs, hcfg{kind: kind, fn: fn, capacity: capa, lf: lf, mult: m, seed: 0x33})
					}
				}
			}
			cs = append(cs, hcfg{kind: kind, fn: fn, deflt: true, seed: 0x33})
		}
	}
	return cs
}

func init() {
	register("C03", checkInfo{level: "model_checking",
		rule:  "breadth-first search over all put/remove histories of a live hash map/set against a Go map for every combination of table configuration, hashing scheme (constant, colliding, sequential, real seeded Murmur3) and seed; states merged by deep dump of the real table; plus long grow/shrink/churn histories over the whole configuration grid with every operation checked",
		assum: []string{"equal keys have equal hashes", "the random seed is supplied by the harness", "single goroutine"}}, func(w *W) {
		for i, c := range hashCfgs(w.Quick()) {
			if w.Mine(i) {
				w.bfsHash(c, nil)
			}
		}
		n := 120
		if !w.Quick() {
			n = 600
		}
		for _, c := range longCfgs() {
			for _, kind := range []string{"growshrink", "saw", "churn"} {
				c, kind := c, kind
				w.Case("long-"+c.name(), func() string { return kind }, func() error {
					h := newHashSUT(c)
					for i, o := range longHist(n, kind) {
						if err := h.apply(o); err != nil {
							return bad("long", "step %d %v: %v", i, o, err)
						}
						if i%7 == 0 || len(h.ref) < 12 {
							if err := h.observe(n); err != nil {
								return bad("long", "after step %d %v: %v", i, o, err)
							}
						}
						w.transitions++
					}
					w.traces++
					w.Outcome(c.name(), kind)
					return h.observe(n)
				})
			}
		}
		// every operation at every size up to a few thousand
		n = 4300
		if !w.Quick() {
			n = 70000
		}
		for _, c := range []hcfg{{kind: "map", fn: "seq", deflt: true}, {kind: "map", fn: "seeded", deflt: true, seed: 7},
			{kind: "set", fn: "seq", deflt: true}, {kind: "set", fn: "seeded", deflt: true, seed: 1},
			{kind: "map", fn: "seeded", capacity: 1, lf: 0.5, mult: 1.25}, {kind: "map", fn: "seq", capacity: 64, lf: 2, mult: 4},
			{kind: "set", fn: "seeded", capacity: 17, lf: 3, mult: 1.5}, {kind: "map", fn: "seq", capacity: 5000, lf: 0.75, mult: 2}} {
			for i, ins := range walkNames {
				c, ins, del := c, ins, walkNames[(i*3+1)%len(walkNames)]
				w.Case("walk-"+c.name(), func() string { return ins + "/" + del }, func() error {
					h := newHashSUT(c)
					w.traces++
					return sizeWalk(n, ins, del, h.apply, func(keys []int) error {
						for _, k := range keys {
							if err := h.apply(sop{'g', k, 0}); err != nil {
								return err
							}
						}
						return nil
					}, &w.transitions)
				})
			}
		}
		pn := 16
		if !w.Quick() {
			pn = 26
		}
		for _, c := range []hcfg{{kind: "map", fn: "seq", deflt: true}, {kind: "map", fn: "mod3", capacity: 10, lf: 0.5, mult: 1.2}, {kind: "set", fn: "seeded", deflt: true, seed: 9},
			{kind: "map", fn: "big", capacity: 10, lf: 1, mult: 2}, {kind: "map", fn: "const", capacity: 10, lf: 0.5, mult: 1.5}, {kind: "set", fn: "cap", capacity: 11, lf: 0.75, mult: 1.5}} {
			c := c
			w.probes("probe-"+c.name(), pn, "gi", func() func(sop) error { return newHashSUT(c).apply })
		}
		// two tables at once
		w.Case("two-maps", func() string { return "" }, func() error {
			c := hcfg{kind: "map", fn: "seeded", deflt: true, seed: 3}
			a, b := newHashSUT(c), newHashSUT(c)
			for i := 0; i < 200; i++ {
				if err := a.apply(sop{'p', i * 37 % 101, i + 1}); err != nil {
					return err
				}
				if err := b.apply(sop{'p', i * 53 % 103, i + 1}); err != nil {
					return err
				}
				if i%3 == 0 {
					if err := a.apply(sop{'r', i * 11 % 101, 0}); err != nil {
						return err
					}
				}
			}
			if err := a.observe(110); err != nil {
				return err
			}
			return b.observe(110)
		})
	})

	register("C04", checkInfo{level: "model_checking",
		rule:  "in every table state of the C03 exploration, the iterator is drained under all call patterns; it must yield every stored entry exactly once, peek/next/has-next must agree, and nothing may come after the end",
		assum: []string{"the table is not modified while iterated"}}, func(w *W) {
		for i, c := range hashCfgs(w.Quick()) {
			if w.Quick() && c.keys > 5 && c.vals == 1 {
				c.keys = 5
			}
			if w.Mine(i) {
				w.bfsHash(c, func(h *hashSUT) error { return hashIterate(w, h) })
			}
		}
		for _, c := range longCfgs() {
			if c.capacity == 13 || c.deflt {
				c := c
				w.Case("long-"+c.name(), func() string { return "growshrink" }, func() error {
					h := newHashSUT(c)
					for _, o := range longHist(60, "growshrink") {
						if h.apply(o) != nil {
							return nil
						}
						if err := hashIterate(w, h); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	})
}

func hashIterate(w *W, h *hashSUT) error {
	type item struct {
		k collection.IObject
		v collection.IObject
	}
	name := func(it item) string {
		if it.k == nil {
			return "<nil>"
		}
		if x, ok := it.k.(*hk); ok {
			return fmt.Sprintf("%d=%v", x.k, it.v)
		}
		for k := 0; k < 200; k++ {
			if it.k.(collection.IHashable).Equal(h.c.key(k, 0)) {
				return fmt.Sprintf("%d=%v", k, it.v)
			}
		}
		return fmt.Sprintf("?%v=%v", it.k, it.v)
	}
	var want []string
	for k, v := range h.ref {
		if h.s != nil {
			want = append(want, fmt.Sprintf("%d=<nil>", k))
		} else {
			want = append(want, fmt.Sprintf("%d=%v", k, vobj(v)))
		}
	}
	sort.Strings(want)
	emptyFinding := false
	for _, pat := range []string{"n", "hn", "pn", "pphhn", "hphn"} {
		var next, peek func() item
		var has func() bool
		if h.m != nil {
			it := h.m.Iterator()
			next = func() item { k, v := it.Next(); return mkItem(k, v) }
			peek = func() item { k, v := it.Peek(); return mkItem(k, v) }
			has = it.HasNext
		} else {
			it := h.s.Iterator()
			next = func() item { return item{it.Next(), nil} }
			peek = func() item { return item{it.Peek(), nil} }
			has = it.HasNext
		}
		var got []string
		var lastPeek string
		peeked, told, hasTold := false, false, false
		for step := 0; step < (len(want)+3)*len(pat); step++ {
			switch pat[step%len(pat)] {
			case 'h':
				b := has()
				if hasTold && b != told {
					return bad("has", "%s: HasNext changes its answer", pat)
				}
				told, hasTold = b, true
			case 'p':
				p := name(peek())
				if peeked && p != lastPeek {
					return bad("peek", "%s: Peek yields %s then %s", pat, lastPeek, p)
				}
				lastPeek, peeked = p, true
				if hasTold && told != (p != "<nil>") {
					return bad("has", "%s: HasNext %v but Peek yields %s", pat, told, p)
				}
			case 'n':
				x := name(next())
				if peeked && x != lastPeek {
					return bad("peek", "%s: Peek yields %s but Next %s", pat, lastPeek, x)
				}
				if hasTold && told != (x != "<nil>") {
					return bad("has", "%s: HasNext %v but Next yields %s", pat, told, x)
				}
				if x != "<nil>" {
					got = append(got, x)
				}
				peeked, hasTold = false, false
			}
		}
		sort.Strings(got)
		w.transitions += int64((len(want) + 3) * len(pat))
		if strings.Join(got, " ") != strings.Join(want, " ") {
			if len(got) == 0 {
				emptyFinding = true
				continue
			}
			return bad("content", "iterating (%s) yields %v, stored are %v", pat, got, want)
		}
	}
	w.Outcome(strings.Join(want, " "))
	if err := h.observe(h.c.keys); err != nil {
		return bad("modified", "after iterating, %v", err)
	}
	if emptyFinding {
		return bad("hash-iterator-empty", "iterating yields nothing, stored are %v", want)
	}
	return nil
}

func mkItem(k collection.IHashable, v collection.IObject) (it struct {
	k collection.IObject
	v collection.IObject
}) {
	if k != nil {
		it.k = k
	}
	it.v = v
	return
}

func checkHashCost(w *W) {
	N := 3000
	if !w.Quick() {
		N = 30000
	}
	var cfgs []hcfg
	for _, c := range longCfgs() {
		if c.fn == "seq" {
			cfgs = append(cfgs, c)
		}
	}
	for _, lf := range []float32{0.1, 0.49, 0.51, 0.9, 0.99, 1.01, 50} {
		for _, m := range []float32{0.5, 0.99, 1.001, 1.05, 1.1, 1.15, 1.19, 1.21, 1.3, 3, 4.99, 5.01, 30} {
			cfgs = append(cfgs, hcfg{kind: "map", fn: "seq", capacity: 10, lf: lf, mult: m, seed: 0x33})
		}
	}
	for _, c := range cfgs {
		for _, kind := range []string{"growshrink", "saw", "churn"} {
			c, kind := c, kind
			w.Case("hash-"+c.name(), func() string { return kind }, func() error {
				h := newHashSUT(c)
				max := 0
				hashCount = 0
				for i, o := range longHist(N, kind) {
					eqCount = 0
					if h.apply(o) != nil {
						return nil
					}
					if eqCount > max {
						max = eqCount
					}
					if eqCount > 12 {
						return bad("hashcost", "step %d %v on %d entries makes %d equality tests", i, o, len(h.ref), eqCount)
					}
					if i > 500 && hashCount > 60*i {
						return bad("hashcost", "%d operations compute %d hashes", i, hashCount)
					}
				}
				w.Outcome(c.name(), kind, max)
				return nil
			})
		}
	}
}
