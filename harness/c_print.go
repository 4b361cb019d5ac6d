package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// C31: the text of an object.

type printable interface {
	Print(w io.Writer, indent int)
	ToString() string
}

// a printed line and the lines below it
type pline struct {
	text string
	kids []*pline
}

func (l *pline) all() (r []*pline) {
	r = append(r, l)
	for _, k := range l.kids {
		r = append(r, k.all()...)
	}
	return
}

// shape is the text-free form of the printed tree
func (l *pline) shape() string {
	var b strings.Builder
	b.WriteByte('(')
	for _, k := range l.kids {
		b.WriteString(k.shape())
	}
	b.WriteByte(')')
	return b.String()
}

var indents = []int{0, 1, 4, 11}

// printed prints p with every indent, describes it, and gives the printed tree.
func printed(p printable) (*pline, string, error) {
	desc := p.ToString()
	if strings.TrimSpace(desc) == "" || strings.ContainsAny(desc, "\n\r") || strings.Contains(desc, "%!") {
		return nil, "", bad("describe", "the description is not one line of text: %q", trunc(desc, 200))
	}
	var base string
	var root *pline
	for round := 0; round < 2; round++ {
		for _, in := range indents {
			var b bytes.Buffer
			p.Print(&b, in)
			s := b.String()
			if strings.Contains(s, "%!") {
				return nil, "", bad("format", "the text is malformed: %q", trunc(s, 300))
			}
			if !strings.HasSuffix(s, "\n") {
				return nil, "", bad("lines", "the text does not end its last line: %q", trunc(s, 300))
			}
			lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
			var stack []*pline
			var depth []int
			for i, l := range lines {
				t := strings.TrimLeft(l, " ")
				d := len(l) - len(t)
				if t == "" {
					return nil, "", bad("lines", "line %d is empty: %q", i, trunc(s, 300))
				}
				if i == 0 && d != in || i > 0 && d <= in {
					return nil, "", bad("indent", "indent %d: line %d starts with %d spaces: %q", in, i, d, trunc(s, 300))
				}
				lines[i] = l[in:]
				n := &pline{text: t}
				for len(depth) > 0 && depth[len(depth)-1] >= d {
					depth, stack = depth[:len(depth)-1], stack[:len(stack)-1]
				}
				if len(stack) > 0 {
					up := stack[len(stack)-1]
					up.kids = append(up.kids, n)
				} else if i > 0 {
					return nil, "", bad("indent", "line %d belongs to nothing: %q", i, trunc(s, 300))
				} else {
					root = n
				}
				depth, stack = append(depth, d), append(stack, n)
			}
			if t := strings.Join(lines, "\n"); base == "" {
				base = t
			} else if t != base {
				return nil, "", bad("changes", "printed again the text is another: %q, before %q", trunc(t, 300), trunc(base, 300))
			}
		}
	}
	if d := p.ToString(); d != desc {
		return nil, "", bad("changes", "described again: %q, before %q", trunc(d, 200), trunc(desc, 200))
	}
	return root, base, nil
}

// ---------------------------------------------------------------------------
// search trees and hash tables

type pkey struct{ k int }

func (k *pkey) String() string                  { return fmt.Sprintf("<K%03d>", k.k) }
func (k *pkey) Equal(o collection.IObject) bool { x, ok := o.(*pkey); return ok && x.k == k.k }
func (k *pkey) Compare(o collection.IComparable) int {
	return sgn(k.k - o.(*pkey).k)
}

type phkey struct {
	k int
	h uint32
}

func (k *phkey) String() string                          { return fmt.Sprintf("<K%03d>", k.k) }
func (k *phkey) Equal(o collection.IObject) bool         { x, ok := o.(*phkey); return ok && x.k == k.k }
func (k *phkey) HashUint32(f func([]byte) uint32) uint32 { return k.h }

func pval(k, v int) string { return fmt.Sprintf("<V%03d.%03d>", k, v) }

type psut interface {
	printable
	apply(o sop)
	same(ref map[int]string) error
}

type pavl struct{ *collection.AVLTree }

func (t pavl) apply(o sop) {
	if o.op == 'p' {
		t.Put(&pkey{o.key}, pval(o.key, o.val))
	} else {
		t.Remove(&pkey{o.key})
	}
}

func (t pavl) same(ref map[int]string) error {
	for k := -1; k < 8; k++ {
		n := t.Get(&pkey{k})
		if _, ok := ref[k]; ok != (n != nil) {
			return bad("changes", "after printing key %d is found: %v", k, n != nil)
		}
	}
	n := 0
	for it := t.Iterator(); it.HasNext(); n++ {
		it.Next()
	}
	if n != len(ref) || t.Size() != len(ref) {
		return bad("changes", "after printing there are %d entries, size %d, of %d", n, t.Size(), len(ref))
	}
	return nil
}

type phash struct {
	*collection.Hash
	fn string
}

func (t phash) key(k int) *phkey { return &phkey{k, hashFns[t.fn](k)} }

func (t phash) apply(o sop) {
	if o.op == 'p' {
		t.Put(t.key(o.key), pval(o.key, o.val))
	} else {
		t.Remove(t.key(o.key))
	}
}

func (t phash) same(ref map[int]string) error {
	for k := range ref {
		if t.Get(t.key(k)) == nil {
			return bad("changes", "after printing key %d is gone", k)
		}
	}
	if t.Size() != len(ref) {
		return bad("changes", "after printing the size is %d, of %d entries", t.Size(), len(ref))
	}
	return nil
}

// entries checks that every entry is on exactly one of the lines below the first one.
func entries(root *pline, ref map[int]string) error {
	lines := root.all()[1:]
	if len(lines) != len(ref) {
		return bad("entries", "%d lines for %d entries", len(lines), len(ref))
	}
	for k, v := range ref {
		n := 0
		for _, l := range lines {
			if strings.Contains(l.text, v) {
				n++
				if !strings.Contains(l.text, fmt.Sprintf("<K%03d>", k)) {
					return bad("entries", "value %s is shown without its key: %q", v, l.text)
				}
			}
		}
		if n != 1 {
			return bad("entries", "value %s is shown on %d lines", v, n)
		}
	}
	return nil
}

func refOf(h []sop) map[int]string {
	ref := map[int]string{}
	for _, o := range h {
		if o.op == 'p' {
			ref[o.key] = pval(o.key, o.val)
		} else {
			delete(ref, o.key)
		}
	}
	return ref
}

// printCase replays a history twice, once printing after each operation.
func (w *W) printCase(mk func() psut, h []sop) (string, error) {
	quiet, noisy := mk(), mk()
	ref := refOf(h)
	for i, o := range h {
		quiet.apply(o)
		noisy.apply(o)
		if i+1 < len(h) {
			noisy.Print(io.Discard, 3)
			noisy.ToString()
		}
	}
	w.transitions += int64(len(h))
	root, text, err := printed(quiet)
	if err != nil {
		return "", err
	}
	if err := entries(root, ref); err != nil {
		return "", err
	}
	if _, t, err := printed(noisy); err != nil {
		return "", err
	} else if t != text {
		return "", bad("changes", "an object printed between operations shows %q, another one %q", trunc(t, 300), trunc(text, 300))
	}
	if err := quiet.same(ref); err != nil {
		return "", err
	}
	return text, nil
}

// bfsPrint explores every history; states are told apart by their text.
func (w *W) bfsPrint(suite string, keys, vals, depth int, mk func() psut) {
	if id, ok := w.Only(suite); ok {
		w.Exec(suite, func() string { return id }, func() error { _, err := w.printCase(mk, parseOps(id)); return err })
		return
	}
	if w.Replaying() {
		return
	}
	content := func(h []sop) string {
		var p []string
		for _, v := range refOf(h) {
			p = append(p, v)
		}
		sort.Strings(p)
		return strings.Join(p, "")
	}
	shown := map[string]string{}
	frontier := [][]sop{nil}
	n := 0
	for d := 0; d <= depth && len(frontier) > 0 && !w.Expired(); d++ {
		var next [][]sop
		for _, h := range frontier {
			h := h
			n++
			if n%w.N == w.Shard {
				w.Exec(suite, func() string { return opsString(h) }, func() error {
					w.states++
					w.traces++
					t, err := w.printCase(mk, h)
					w.Outcome(t)
					return err
				})
			}
			if w.Expired() || d == depth {
				continue
			}
			for k := 0; k < keys; k++ {
				for v := 0; v <= vals; v++ {
					o := sop{'p', k, v}
					if v == vals {
						o = sop{'r', k, 0}
					}
					hh := append(append([]sop{}, h...), o)
					var text string
					if err := protect(func() error {
						s := mk()
						for _, o := range hh {
							s.apply(o)
						}
						var b bytes.Buffer
						s.Print(&b, 0)
						text = b.String()
						return nil
					}); err != nil {
						next = append(next, hh)
						continue
					}
					c := content(hh)
					if old, ok := shown[text]; !ok {
						shown[text] = c
						next = append(next, hh)
					} else if old != c && w.Shard == 0 {
						w.Exec(suite, func() string { return opsString(hh) }, func() error {
							return bad("ambiguous", "one text for the contents %s and %s: %q", old, c, trunc(text, 300))
						})
					}
				}
			}
		}
		frontier = next
	}
}

// ---------------------------------------------------------------------------
// keys

func (w *W) printKeys() {
	parts := [][]byte{[]byte("a"), []byte("b"), []byte("ab"), {0}, {0xff}, {'\n'}, {'%'}, {','}, bytes.Repeat([]byte("x"), 40)}
	var all [][][]byte
	var rec func(k [][]byte)
	max := 2
	if !w.Quick() {
		max = 3
	}
	rec = func(k [][]byte) {
		all = append(all, append([][]byte{}, k...))
		if len(k) < max {
			for _, p := range parts {
				rec(append(append([][]byte{}, k...), p))
			}
		}
	}
	rec(nil)
	for i := 0; i < 60; i++ { // longer than what is shown of the encoding
		k := [][]byte{}
		for j := 0; j < 30; j++ {
			k = append(k, []byte{byte('a' + (i+j)%7)})
		}
		if i >= 30 {
			k[29-i%30] = []byte("zz")
		}
		all = append(all, k)
	}
	for n := 2; n <= 70; n++ { // every length, told apart by the first and by the last byte
		for _, at := range []int{0, n / 2, n - 1} {
			p := repb('m', n)
			p[at] = 'n'
			all = append(all, [][]byte{p}, [][]byte{p, []byte("q")}, [][]byte{[]byte("q"), p})
		}
	}
	for _, rep := range keyReps() {
		rep := rep
		texts, descs := map[string]string{}, map[string]string{}
		for _, sub := range all {
			sub := sub
			k := rep.mk(sub)
			if k == nil {
				continue
			}
			p, ok := k.(printable)
			if !ok {
				continue
			}
			w.Case("key", func() string { return rep.name + " " + subsString(sub) }, func() error {
				w.traces++
				enc := k.IsEncoded()
				_, text, err := printed(p)
				if err != nil {
					return err
				}
				if k.IsEncoded() != enc || !eqSubs(k.Key(), sub) {
					return bad("changes", "printing changes key %s to %s", subsString(sub), subsString(k.Key()))
				}
				w.Outcome(text)
				if err := k.Encode(nil); err != nil {
					return bad("changes", "after printing key %s: %v", subsString(sub), err)
				}
				ref := buildKey(sub)
				if len(sub) > 0 {
					if ref.Encode(nil); !bytes.Equal(ref.Buf(), k.Buf()) {
						return bad("changes", "after printing key %s encodes to %x", subsString(sub), k.Buf())
					}
				}
				if _, _, err = printed(p); err != nil {
					return err
				}
				if b, ok := k.(*util.Key); ok {
					b.Add([]byte("more"))
					enc := k.IsEncoded()
					if _, _, err := printed(p); err != nil {
						return err
					}
					if k.IsEncoded() != enc || !eqSubs(k.Key(), append(append([][]byte{}, sub...), []byte("more"))) {
						return bad("changes", "printing changes a changed key: %s, encoded %v", subsString(k.Key()), k.IsEncoded())
					}
				}
				return nil
			})
			if w.Replaying() || len(sub) == 0 {
				continue
			}
			// the text tells the parts
			k = rep.mk(sub)
			var b bytes.Buffer
			if protect(func() error { k.(printable).Print(&b, 2); return nil }) != nil {
				continue
			}
			for what, m := range map[string]map[string]string{b.String(): texts, k.(printable).ToString(): descs} {
				if old, ok := m[what]; ok && old != kstr(sub) && w.Shard == 0 {
					w.Exec("key", func() string { return rep.name + " " + subsString(sub) }, func() error {
						return bad("ambiguous", "keys %s and %s have one text: %q", old, kstr(sub), trunc(what, 300))
					})
				}
				m[what] = kstr(sub)
			}
		}
	}
}

// ---------------------------------------------------------------------------
// tries

// wantShape is the printed form of a trie's nodes: children in ascending order
func (m *mnode) wantShape() string {
	var b strings.Builder
	b.WriteByte('(')
	for _, k := range m.sorted() {
		b.WriteString(m.kids[k].wantShape())
	}
	b.WriteByte(')')
	return b.String()
}

func refTree(ref map[string]util.IValue, keys [][][]byte) *mnode {
	root := &mnode{kids: map[string]*mnode{}}
	for _, k := range keys {
		if isNilI(ref[kstr(k)]) {
			continue
		}
		n := root
		for _, p := range k {
			c := n.kids[string(p)]
			if c == nil {
				c = &mnode{parent: n, key: p, kids: map[string]*mnode{}}
				n.kids[string(p)] = c
			}
			n = c
		}
	}
	return root
}

func trieShape(what string, p printable, want string) (string, error) {
	root, text, err := printed(p)
	if err != nil {
		return "", err
	}
	if len(root.kids) != 1 {
		return "", bad("entries", "%s: %d objects directly below the trie", what, len(root.kids))
	}
	if got := root.kids[0].shape(); got != want {
		return "", bad("entries", "%s: the printed nodes are %s, the trie's %s", what, got, want)
	}
	return text, nil
}

func (w *W) printTries() {
	us := trieUniverses(true)
	if !w.Quick() {
		us = trieUniverses(false)
	}
	for i := range us {
		u := &us[i]
		texts := map[string]string{}
		w.bfsTrie(u, func(s *trieSUT) error {
			want := refTree(s.ref, u.keys).wantShape()
			enc := s.t.IsEncoded()
			text, err := trieShape("built", s.t, want)
			if err != nil {
				return err
			}
			w.Outcome(text)
			if s.t.IsEncoded() != enc {
				return bad("changes", "printing changes whether the trie is encoded")
			}
			var content []string
			for k, v := range s.ref {
				if !isNilI(v) {
					content = append(content, fmt.Sprintf("%s=%x", k, v.Value()))
				}
			}
			sort.Strings(content)
			c := strings.Join(content, " ")
			if old, ok := texts[text]; ok && old != c {
				return bad("ambiguous", "one text for the contents %s and %s: %q", old, c, trunc(text, 300))
			}
			texts[text] = c
			if err := s.t.Encode(nil); err != nil {
				return bad("changes", "after printing: %v", err)
			}
			buf := append([]byte{}, s.t.Buf()...)
			if _, err := trieShape("encoded", s.t, want); err != nil {
				return err
			}
			if !s.t.IsEncoded() || !bytes.Equal(s.t.Buf(), buf) {
				return bad("changes", "printing changes the encoding")
			}
			m, n, err := util.NewMappedTrie(append(append([]byte{}, buf...), 1, 2, 3))
			if err != nil || n != len(buf) {
				return bad("changes", "after printing the encoding is not read: %d of %d, %v", n, len(buf), err)
			}
			if _, err := trieShape("decoded", m, want); err != nil {
				return err
			}
			if !bytes.Equal(m.Buf(), buf) {
				return bad("changes", "printing changes the decoded trie's bytes")
			}
			// changed after it was encoded, the trie is not encoded by being looked at
			for i, k := range u.keys {
				var v util.IValue
				if i%2 == 0 {
					v = util.NewPrimitive([]byte("another"))
				}
				s.t.Set(s.key(k, i), v)
				enc := s.t.IsEncoded()
				root, _, err := printed(s.t)
				if err != nil {
					return err
				}
				if s.t.IsEncoded() != enc {
					return bad("changes", "printing a changed trie changes whether it is encoded")
				}
				w.Outcome(root.shape())
			}
			for _, k := range u.keys {
				v, r := m.Get(s.key(k, 0)), s.ref[kstr(k)]
				if isNilI(v) != isNilI(r) || !isNilI(v) && !bytes.Equal(v.Value(), r.Value()) {
					return bad("changes", "after printing the decoded trie answers %s with %v", subsString(k), v)
				}
			}
			if _, err := trieShape("looked up", m, want); err != nil {
				return err
			}
			return nil
		})
	}
	n := 3
	if !w.Quick() {
		n = 4
	}
	trees := func(f func(string, func() *mnode)) {
		nodeTrees(n, 3, 3, f)
		for _, kn := range []int{1, 2, 7, 8, 9, 13, 14, 15, 16, 17, 31, 32, 33, 130} { // node keys and values of many lengths
			for vn := 0; vn <= 40; vn++ {
				kn, vn := kn, vn
				f(fmt.Sprintf("key of %d, value of %d", kn, vn), func() *mnode {
					root := &mnode{kids: map[string]*mnode{}, val: primB(repb(7, vn))}
					m := &mnode{parent: root, key: repb('k', kn), kids: map[string]*mnode{}, val: primB(repb(7, vn))}
					root.kids[string(m.key)] = m
					return root
				})
			}
		}
	}
	trees(func(name string, mk func() *mnode) {
		w.Case("nodes", func() string { return name }, func() error {
			w.traces++
			root := mk()
			var build func(m *mnode, p util.ITrieNode) util.ITrieNode
			build = func(m *mnode, p util.ITrieNode) util.ITrieNode {
				var v util.IValue
				if m.val != nil {
					v = m.val.build()
				}
				var key []byte
				if p != nil {
					key = append([]byte{}, m.key...)
				}
				o := util.NewTrieNode(p, key, v)
				for _, k := range m.sorted() {
					if err := o.PutChild([]byte(k), build(m.kids[k], o)); err != nil {
						panic(err)
					}
				}
				m.obj = o
				return o
			}
			build(root, nil)
			for _, m := range root.all() {
				p := m.obj.(printable)
				r, text, err := printed(p)
				if err != nil {
					return err
				}
				w.Outcome(text)
				if got, want := r.shape(), m.wantShape(); got != want {
					return bad("entries", "node %s: the printed nodes are %s, its own %s", subsString(m.path()), got, want)
				}
			}
			for _, m := range root.all() {
				if err := m.obj.Encode(nil); err != nil {
					return bad("changes", "after printing node %s: %v", subsString(m.path()), err)
				}
				b, err := m.bytes()
				if err != nil {
					return err
				}
				for round := 0; round < 2; round++ {
					enc := m.obj.IsEncoded()
					if _, _, err := printed(m.obj.(printable)); err != nil {
						return err
					}
					if m.obj.IsEncoded() != enc {
						return bad("changes", "printing node %s changes whether it is encoded", subsString(m.path()))
					}
					if round == 0 {
						if !bytes.Equal(m.obj.Buf(), b) {
							return bad("changes", "after printing node %s is encoded as %x, not %x", subsString(m.path()), m.obj.Buf(), b)
						}
						m.obj.SetValue(util.NewPrimitive([]byte("another")))
					}
				}
			}
			// the same nodes decoded
			known := map[uint32]util.ITrieNode{}
			off := uint32(0)
			top, err := root.decodeTree(nil, known, []byte{1, 1, 'a'}, &off)
			if err != nil {
				return err
			}
			for _, m := range top.all() {
				r, text, err := printed(m.obj.(printable))
				if err != nil {
					return err
				}
				w.Outcome(text)
				if got, want := r.shape(), m.wantShape(); got != want {
					return bad("entries", "decoded node %s: the printed nodes are %s, its own %s", subsString(m.path()), got, want)
				}
			}
			return nil
		})
	})
}

func init() {
	register("C31", checkInfo{level: "model_checking",
		rule:  "every history of puts and removes on search trees and hash tables (colliding and spread hashes, growth and shrinking) and of sets and removals on tries up to a depth, states told apart by their text; every state printed with four indents, twice, next to a twin that is printed after every operation; every key of up to 2 (thorough 3) parts in 11 representations; every tree of up to 3 (4) trie nodes, built and decoded; distinct outcomes = distinct texts",
		assum: []string{"keys and values print as text without line breaks", "values inside trie nodes other than primitives may be shown by their address"}},
		func(w *W) {
			w.printKeys()
			q := w.Quick()
			pick := func(a, b int) int {
				if q {
					return a
				}
				return b
			}
			w.bfsPrint("tree", pick(4, 5), 2, pick(8, 12), func() psut { return pavl{collection.NewAVLTree()} })
			w.bfsPrint("tree-wide", pick(7, 9), 1, pick(8, 10), func() psut { return pavl{collection.NewAVLTree()} })
			for _, fn := range []string{"const", "mod2", "seq", "cap"} {
				fn := fn
				w.bfsPrint("hash-"+fn, pick(3, 4), 2, pick(6, 7), func() psut {
					setRand(9)
					return phash{collection.NewCustomHash(10, 0.75, 1.5), fn}
				})
				w.bfsPrint("hash-grow-"+fn, pick(6, 8), 1, pick(8, 10), func() psut {
					setRand(3)
					return phash{collection.NewCustomHash(10, 0.5, 2), fn}
				})
			}
			// large ones, along a history
			for _, n := range []int{20, 100, pick(300, 2000)} {
				for _, kind := range []string{"tree", "mod3", "seq"} {
					n, kind := n, kind
					w.Case("large", func() string { return fmt.Sprintf("%s %d", kind, n) }, func() error {
						w.traces++
						mk := func() psut { return pavl{collection.NewAVLTree()} }
						if kind != "tree" {
							mk = func() psut { setRand(5); return phash{collection.NewHash(), kind} }
						}
						var h []sop
						for i := 0; i < n; i++ {
							h = append(h, sop{'p', i * 7 % n % 1000, 0})
							if i%5 == 4 {
								h = append(h, sop{'r', i % 1000, 0})
							}
						}
						s := mk()
						for _, o := range h {
							s.apply(o)
						}
						root, text, err := printed(s)
						if err != nil {
							return err
						}
						w.Outcome(text)
						return entries(root, refOf(h))
					})
				}
			}
			w.printTries()
		})
}
