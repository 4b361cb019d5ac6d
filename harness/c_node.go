package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// C29: trie nodes used on their own, built and decoded.

type mnode struct {
	obj    util.ITrieNode
	parent *mnode
	key    []byte
	kids   map[string]*mnode
	val    *val
	off    uint32
	enc    byte // 's' has to be encoded again, 'f' has a fresh encoding, 'u' not specified
}

func (m *mnode) path() (r [][]byte) {
	for ; m.parent != nil; m = m.parent {
		r = append([][]byte{m.key}, r...)
	}
	return
}

func (m *mnode) sorted() (r []string) {
	for k := range m.kids {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func cpVal(v *val) *val {
	if v == nil {
		return nil
	}
	c := *v
	c.kids = append([]*val{}, v.kids...)
	return &c
}

// the bytes a node is encoded to
func (m *mnode) bytes() ([]byte, error) {
	b := append([]byte{1}, util.EncodeVarchar(m.key)...)
	po := uint64(0)
	if m.parent != nil {
		po = uint64(m.parent.off)
	}
	b = append(b, util.EncodeUvarint64(po)...)
	if m.val == nil {
		b = append(b, 0)
	} else {
		x := m.val.build()
		if err := x.Encode(nil); err != nil {
			return nil, err
		}
		b = append(b, x.Buf()...)
	}
	return append(b, util.EncodeUvarint64(uint64(len(m.kids)))...), nil
}

type nodeWorld struct {
	slots []*mnode
	max   int
}

type nop struct {
	code byte
	i, k int
}

var nodeKeys = [][]byte{[]byte("a"), []byte("b"), []byte("ab"), {0}, {0xff}}

func (o nop) String() string { return fmt.Sprintf("%c%d%d", o.code, o.i, o.k) }

func nopsString(h []nop) string {
	var p []string
	for _, o := range h {
		p = append(p, o.String())
	}
	return strings.Join(p, " ")
}

func parseNops(s string) (h []nop) {
	for _, x := range strings.Fields(s) {
		h = append(h, nop{x[0], int(x[1] - '0'), int(x[2] - '0')})
	}
	return
}

func newNodeWorld(max int) *nodeWorld {
	m := &mnode{obj: util.NewTrieNode(nil, []byte("ignored"), nil), kids: map[string]*mnode{}, enc: 's'}
	return &nodeWorld{[]*mnode{m}, max}
}

func (wd *nodeWorld) ops(keys int) (r []nop) {
	for i, m := range wd.slots {
		for k := 0; k < keys; k++ {
			if len(wd.slots) < wd.max {
				r = append(r, nop{'N', i, k})
			}
			r = append(r, nop{'R', i, k})
		}
		if m.parent != nil {
			r = append(r, nop{'P', i, 0})
		}
		for v := 0; v < 3; v++ {
			r = append(r, nop{'V', i, v})
		}
		if m.val != nil && m.val.kind == 'a' && len(m.val.kids) < 2 {
			r = append(r, nop{'I', i, 0})
		}
		r = append(r, nop{'O', i, 0}, nop{'E', i, 0})
		if len(wd.slots) < wd.max {
			r = append(r, nop{'C', i, 0}, nop{'K', i, 0})
		}
	}
	return
}

func nilNode(n util.ITrieNode) bool { return n == nil || isNilPtr(n) }

// adopt makes the model of a copy: nothing of it may be an object of the original.
func adopt(m *mnode, obj util.ITrieNode, parent *mnode) (*mnode, error) {
	if nilNode(obj) {
		return nil, bad("copy", "a copied node is missing")
	}
	if obj == m.obj {
		return nil, bad("copy", "the copy shares node %x with the original", m.key)
	}
	if obj.IsEncoded() && m.obj.IsEncoded() {
		if a, b := obj.Buf(), m.obj.Buf(); len(a) > 0 && len(b) > 0 && &a[0] == &b[0] {
			return nil, bad("copy", "the copy shares the bytes of node %x with the original", m.key)
		}
	}
	c := &mnode{obj: obj, parent: parent, key: m.key, kids: map[string]*mnode{}, val: cpVal(m.val), off: obj.Offset(), enc: 'u'}
	for k, n := range m.kids {
		x, err := adopt(n, obj.GetChild([]byte(k)), c)
		if err != nil {
			return nil, err
		}
		c.kids[k] = x
	}
	return c, nil
}

func (wd *nodeWorld) apply(o nop) error {
	m := wd.slots[o.i]
	switch o.code {
	case 'N':
		k := nodeKeys[o.k]
		c := &mnode{obj: util.NewTrieNode(m.obj, append([]byte{}, k...), nil), parent: m, key: k, kids: map[string]*mnode{}, enc: 's'}
		wd.slots = append(wd.slots, c)
		if err := m.obj.PutChild(append([]byte{}, k...), c.obj); err != nil {
			return bad("put", "%v", err)
		}
		m.kids[string(k)], m.enc = c, 's'
	case 'P':
		if err := m.parent.obj.PutChild(append([]byte{}, m.key...), m.obj); err != nil {
			return bad("put", "%v", err)
		}
		if m.parent.kids[string(m.key)] == m {
			if m.parent.enc == 'f' {
				m.parent.enc = 'u'
			}
		} else {
			m.parent.kids[string(m.key)], m.parent.enc = m, 's'
		}
	case 'R':
		k := string(nodeKeys[o.k])
		if err := m.obj.RemoveChild([]byte(k)); err != nil {
			return bad("remove", "%v", err)
		}
		if m.kids[k] == nil {
			if m.enc == 'f' {
				m.enc = 'u'
			}
		} else {
			delete(m.kids, k)
			m.enc = 's'
		}
	case 'V':
		var v util.IValue
		m.val = nil
		switch o.k {
		case 1:
			m.val = prim(7)
		case 2:
			m.val = arr(prim(1))
		}
		if m.val != nil {
			v = m.val.build()
		}
		if err := m.obj.SetValue(v); err != nil {
			return bad("set", "%v", err)
		}
		m.enc = 's'
	case 'I':
		a, ok := m.obj.Value().(*util.ValueArray)
		if !ok {
			return bad("value", "the value of the node is %T", m.obj.Value())
		}
		a.Append(util.NewPrimitive([]byte{9}))
		m.val.kids = append(m.val.kids, prim(9))
		if m.enc == 'f' {
			m.enc = 'u'
		}
	case 'O':
		m.off = map[uint32]uint32{0: 300, 300: 5, 5: 0}[m.off]
		if err := m.obj.SetOffset(m.off); err != nil {
			return bad("offset", "%v", err)
		}
		if m.enc == 'f' {
			m.enc = 'u'
		}
		wd.each(func(x *mnode) {
			if x.parent == m && x.enc == 'f' {
				x.enc = 'u'
			}
		})
	case 'E':
		if err := m.obj.Encode(nil); err != nil {
			return bad("encode", "%v", err)
		}
		m.enc = 'f'
	case 'C', 'K':
		var x util.IEncodable
		if o.code == 'C' {
			x = m.obj.Copy()
		} else {
			var err error
			if x, err = m.obj.CopyConstruct(); err != nil {
				return bad("copy", "%v", err)
			}
		}
		n, ok := x.(util.ITrieNode)
		if !ok {
			return bad("copy", "the copy is a %T", x)
		}
		c, err := adopt(m, n, m.parent)
		if err != nil {
			return err
		}
		wd.slots = append(wd.slots, c)
	}
	return nil
}

func (wd *nodeWorld) each(f func(m *mnode)) {
	seen := map[*mnode]bool{}
	var visit func(m *mnode)
	visit = func(m *mnode) {
		if m != nil && !seen[m] {
			seen[m] = true
			f(m)
			visit(m.parent)
			for _, k := range m.sorted() {
				visit(m.kids[k])
			}
		}
	}
	for _, m := range wd.slots {
		visit(m)
	}
}

func (m *mnode) observe() error {
	p := m.path()
	if err := sameSubs("FullKey", m.obj.FullKey(), p); err != nil {
		return err
	}
	if !bytes.Equal(m.obj.NodeKey(), m.key) {
		return bad("key", "NodeKey of %s is %x", subsString(p), m.obj.NodeKey())
	}
	if m.parent == nil {
		if !nilNode(m.obj.Parent()) {
			return bad("parent", "the root has a parent")
		}
	} else if m.obj.Parent() != m.parent.obj {
		return bad("parent", "the parent of %s is another node", subsString(p))
	}
	if m.obj.ChildSize() != len(m.kids) {
		return bad("children", "%s has %d children, not %d", subsString(p), m.obj.ChildSize(), len(m.kids))
	}
	for _, k := range nodeKeys {
		c, want := m.obj.GetChild(k), m.kids[string(k)]
		if want == nil && !nilNode(c) || want != nil && c != want.obj {
			return bad("children", "child %x of %s is wrong", k, subsString(p))
		}
	}
	i := 0
	sorted := m.sorted()
	if len(sorted) > 0 {
		for it := m.obj.Children().Iterator(); it.HasNext(); i++ {
			_, v := it.Next()
			if i >= len(sorted) || v != collection.IObject(m.kids[sorted[i]].obj) {
				return bad("children", "child number %d of %s is wrong", i, subsString(p))
			}
		}
		if i != len(sorted) {
			return bad("children", "%d children of %s, not %d", i, subsString(p), len(sorted))
		}
	}
	if m.obj.Offset() != m.off {
		return bad("offset", "the offset of %s is %d, not %d", subsString(p), m.obj.Offset(), m.off)
	}
	if m.val == nil {
		if !isNilI(m.obj.Value()) {
			return bad("value", "%s has a value", subsString(p))
		}
	} else if err := match(m.val, m.obj.Value(), forward); err != nil {
		return bad("value", "value of %s: %v", subsString(p), err)
	}
	return nil
}

func sameSubs(what string, k util.IKey, want [][]byte) error {
	if k == nil || isNilPtr(k) {
		return bad("key", "%s is nil", what)
	}
	if !eqSubs(k.Key(), want) {
		return bad("key", "%s is %s, not %s", what, subsString(k.Key()), subsString(want))
	}
	return nil
}

func (wd *nodeWorld) check() (err error) {
	wd.each(func(m *mnode) {
		if err != nil {
			return
		}
		if err = m.observe(); err != nil {
			return
		}
		if m.enc == 's' && m.obj.IsEncoded() {
			err = bad("stale", "%s has changed and says it is encoded", subsString(m.path()))
		} else if m.enc == 'f' {
			if !m.obj.IsEncoded() {
				err = bad("encode", "%s says it is not encoded", subsString(m.path()))
				return
			}
			var want []byte
			if want, err = m.bytes(); err == nil && !bytes.Equal(want, m.obj.Buf()) {
				err = bad("encode", "%s is encoded as %x, not %x", subsString(m.path()), m.obj.Buf(), want)
			}
		}
	})
	return
}

func (wd *nodeWorld) fp() uint64 {
	var v []interface{}
	for _, m := range wd.slots {
		v = append(v, m.obj, m.enc)
	}
	return fingerprint(false, v...)
}

func replayNodes(max int, h []nop) (*nodeWorld, error) {
	wd := newNodeWorld(max)
	for _, o := range h {
		if err := wd.apply(o); err != nil {
			return wd, err
		}
		if err := wd.check(); err != nil {
			return wd, err
		}
	}
	return wd, nil
}

func (w *W) bfsNodes(suite string, max, keys, depth int) {
	full := func(h []nop) error { _, err := replayNodes(max, h); return err }
	if id, ok := w.Only(suite); ok {
		w.Exec(suite, func() string { return id }, func() error { return full(parseNops(id)) })
		return
	}
	if w.Replaying() {
		return
	}
	seen := map[uint64]bool{}
	frontier := [][]nop{nil}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next [][]nop
		for n, hist := range frontier {
			// after the second step the workers go separate ways
			if d == 2 && n%w.N != w.Shard {
				continue
			}
			if w.Expired() {
				return
			}
			wd, err := replayNodes(max, hist)
			if err != nil {
				continue // reported where it was reached
			}
			w.states++
			for _, o := range wd.ops(keys) {
				h := append(append([]nop{}, hist...), o)
				var fp uint64
				ok := false
				w.Exec(suite, func() string { return nopsString(h) }, func() error {
					w.transitions++
					x, err := replayNodes(max, h)
					if err == nil {
						fp, ok = x.fp(), true
					}
					return err
				})
				if ok && !seen[fp] {
					seen[fp] = true
					w.State(fp)
					w.Outcome(fp)
					if d+1 < depth {
						next = append(next, h)
					}
				}
				w.traces++
			}
			if w.stop {
				return
			}
		}
		frontier = next
	}
}

// mappedTree decodes a tree node by node, parents first.
func (m *mnode) decodeTree(parent *mnode, known map[uint32]util.ITrieNode, tail []byte, off *uint32) (*mnode, error) {
	c := &mnode{parent: parent, key: m.key, kids: map[string]*mnode{}, val: m.val, off: *off}
	b, err := (&mnode{parent: parent, key: m.key, kids: m.kids, val: m.val}).bytes()
	if err != nil {
		return nil, err
	}
	var p util.ITrieNode
	if parent != nil {
		p = parent.obj
	}
	n, l, err := util.NewMappedTrieNode(p, append(append([]byte{}, b...), tail...), *off, known)
	if err != nil {
		return nil, bad("decode", "%s: %v", subsString(c.path()), err)
	}
	if l != len(b) {
		return nil, bad("decode", "%s: consumed %d of %d bytes", subsString(c.path()), l, len(b))
	}
	if !n.IsDecoded() || !n.IsEncoded() || !bytes.Equal(n.Buf(), b) {
		return nil, bad("buf", "%s: Buf is %x, not %x", subsString(c.path()), n.Buf(), b)
	}
	c.obj = n
	if parent != nil {
		parent.kids[string(m.key)] = c
	}
	*off += uint32(l)
	for _, k := range m.sorted() {
		if _, err := m.kids[k].decodeTree(c, known, tail, off); err != nil {
			return nil, err
		}
	}
	return c, nil
}

func (m *mnode) observeAll() error {
	if err := m.observe(); err != nil {
		return err
	}
	for _, k := range m.sorted() {
		if err := m.kids[k].observeAll(); err != nil {
			return err
		}
	}
	return nil
}

func (m *mnode) all() (r []*mnode) {
	r = []*mnode{m}
	for _, k := range m.sorted() {
		r = append(r, m.kids[k].all()...)
	}
	return
}

// nodeTrees: every tree of up to n nodes below the root over the keys, every assignment of values.
func nodeTrees(n, keys, vals int, f func(name string, mk func() *mnode)) {
	// a tree is a list of (parent number, key) with ascending parents; same place twice is skipped
	var rec func(ps, kk []int)
	rec = func(ps, kk []int) {
		total := 1
		for range ps {
			total *= vals
		}
		total *= vals
		for c := 0; c < total; c++ {
			c := c
			ps, kk := append([]int{}, ps...), append([]int{}, kk...)
			f(fmt.Sprintf("%v%v%d", ps, kk, c), func() *mnode {
				x := c
				value := func() (v *val) {
					switch x % vals {
					case 1:
						v = prim(5)
					case 2:
						v = arr(prim(1), prim(2))
					}
					x /= vals
					return
				}
				nodes := []*mnode{{kids: map[string]*mnode{}, val: value()}}
				for i := range ps {
					p := nodes[ps[i]]
					m := &mnode{parent: p, key: nodeKeys[kk[i]], kids: map[string]*mnode{}, val: value()}
					p.kids[string(m.key)] = m
					nodes = append(nodes, m)
				}
				return nodes[0]
			})
		}
		if len(ps) == n {
			return
		}
		for p := 0; p <= len(ps); p++ {
			if len(ps) > 0 && p < ps[len(ps)-1] {
				continue
			}
			for k := 0; k < keys; k++ {
				dup := false
				for i := range ps {
					if ps[i] == p && kk[i] >= k {
						dup = true
					}
				}
				if !dup {
					rec(append(append([]int{}, ps...), p), append(append([]int{}, kk...), k))
				}
			}
		}
	}
	rec(nil, nil)
}

func (w *W) mappedNodeCase(root *mnode, tail []byte) error {
	known := map[uint32]util.ITrieNode{}
	off := uint32(0)
	w.Outcome(len(root.all()), len(tail))
	d, err := root.decodeTree(nil, known, tail, &off)
	if err != nil {
		return err
	}
	if err := d.observeAll(); err != nil {
		return err
	}
	nodes := d.all()
	for _, m := range nodes {
		if m.parent != nil && known[m.off] != m.obj {
			return bad("known", "node %s is not known at its offset", subsString(m.path()))
		}
	}
	for _, m := range nodes {
		// changes are refused and change nothing
		if m.obj.SetValue(util.NewPrimitive([]byte{3})) == nil || m.obj.PutChild([]byte("a"), d.obj) == nil ||
			m.obj.RemoveChild([]byte("a")) == nil || m.obj.SetOffset(77) == nil || m.obj.Encode(nil) == nil {
			return bad("modify", "a change of the decoded node %s is accepted", subsString(m.path()))
		}
		if _, err := m.obj.CopyConstruct(); err == nil {
			w.Note("mapped_node_copyconstruct", 1)
		}
		w.transitions++
	}
	// copies: same content, own nodes, the original tree stays
	for _, m := range nodes {
		x, ok := m.obj.Copy().(util.ITrieNode)
		if !ok {
			return bad("copy", "no node")
		}
		if x.Parent() != nil && !isNilPtr(x.Parent()) && m.parent == nil {
			return bad("copy", "copy of the root has a parent")
		}
		c, err := adopt(m, x, m.parent)
		if err != nil {
			return err
		}
		if err := c.observeAll(); err != nil {
			return bad("copy", "copy of %s: %v", subsString(m.path()), err)
		}
		if !bytes.Equal(x.Buf(), m.obj.Buf()) {
			return bad("copy", "copy of %s has buf %x, not %x", subsString(m.path()), x.Buf(), m.obj.Buf())
		}
		if len(x.Buf()) > 0 && &x.Buf()[0] == &m.obj.Buf()[0] {
			return bad("copy", "copy of %s shares the bytes of the original", subsString(m.path()))
		}
		// later changes of the bytes of the original do not reach the copy
		keep := append([]byte{}, m.obj.Buf()...)
		for i := range m.obj.Buf() {
			m.obj.Buf()[i] ^= 0xff
		}
		err = c.observe()
		copy(m.obj.Buf(), keep)
		if err != nil {
			return bad("copy", "copy of %s after the bytes of the original changed: %v", subsString(m.path()), err)
		}
		if err := d.observeAll(); err != nil {
			return bad("copy", "the original after a copy of %s: %v", subsString(m.path()), err)
		}
		w.transitions++
	}
	return nil
}

func init() {
	register("C29", checkInfo{level: "model_checking",
		rule:  "worlds of up to four nodes: every operation (new child, put, remove, value, change inside a value, offset, encode, copy) in every state up to a depth, states merged by a dump of everything the nodes reach; every tree of up to four nodes with every assignment of values decoded node by node, copied and cut",
		assum: []string{"a child is put under its own node key, in the node it was made for", "a change inside a stored value is seen by the next Encode, not by IsEncoded"}},
		func(w *W) {
			if w.Quick() {
				w.bfsNodes("nodes3", 3, 2, 6)
				w.bfsNodes("nodes4", 4, 2, 4)
				w.bfsNodes("keys", 3, 5, 3)
			} else {
				w.bfsNodes("keys", 4, 5, 4)
				w.bfsNodes("nodes4", 4, 2, 6)
				w.bfsNodes("nodes3", 3, 2, 9)
			}
			n := 3
			if !w.Quick() {
				n = 4
			}
			nodeTrees(n, 3, 3, func(name string, mk func() *mnode) {
				for _, tail := range []string{"", "\x00", "\x01\x01a", "\xff\xff"} {
					tail := tail
					w.Case("mapped", func() string { return fmt.Sprintf("%s %x", name, tail) }, func() error {
						w.traces++
						return w.mappedNodeCase(mk(), []byte(tail))
					})
				}
			})
			// one node: cut anywhere, wrong parent, missing key
			nodeTrees(1, 5, 3, func(name string, mk func() *mnode) {
				for _, off := range []uint32{0, 1, 127, 128, 300, 70000} {
					for _, place := range []string{"root", "child"} {
						off, place := off, place
						w.Case("malformed", func() string { return fmt.Sprintf("%s %s %d", name, place, off) }, func() error {
							return w.malformedNode(mk(), off, place)
						})
					}
				}
			})
		})
}

func (w *W) malformedNode(m *mnode, off uint32, place string) error {
	var parent *mnode
	var p util.ITrieNode
	known := func() map[uint32]util.ITrieNode { return map[uint32]util.ITrieNode{} }
	if place == "child" {
		if len(m.kids) == 0 {
			return nil
		}
		rb, err := (&mnode{kids: m.kids, val: m.val}).bytes()
		if err != nil {
			return err
		}
		n, _, err := util.NewMappedTrieNode(nil, rb, off, known())
		if err != nil {
			return bad("decode", "%v", err)
		}
		parent, p = &mnode{obj: n, off: off, kids: map[string]*mnode{}}, n
		m = m.kids[m.sorted()[0]]
	} else if off != 0 {
		return nil
	}
	mk := func(parentOff uint32, key []byte) []byte {
		b, err := (&mnode{parent: &mnode{off: parentOff}, key: key, kids: m.kids, val: m.val}).bytes()
		if err != nil {
			panic(err)
		}
		return b
	}
	po := uint32(0)
	if parent != nil {
		po = off
	}
	whole := mk(po, m.key)
	refused := func(what string, b []byte) error {
		n, _, err := util.NewMappedTrieNode(p, b, 900, known())
		w.transitions++
		if err == nil {
			return bad("accepted", "%s is accepted: %x", what, b)
		}
		if n != nil {
			return bad("accepted", "%s gives an error and a node: %x", what, b)
		}
		if p != nil && p.ChildSize() != 0 {
			return bad("accepted", "%s is added to its parent", what)
		}
		return nil
	}
	for i := 0; i < len(whole); i++ {
		for _, b := range [][]byte{append([]byte{}, whole[:i]...), append([]byte{}, whole...)[:i]} {
			if err := refused(fmt.Sprintf("a node cut at %d", i), b); err != nil {
				return err
			}
		}
	}
	for _, o := range []uint32{0, 1, 127, 128, 300, 70000} {
		if o != po {
			if err := refused("a node with another parent", mk(o, m.key)); err != nil {
				return err
			}
		}
	}
	if parent != nil {
		if err := refused("a child without key", mk(po, nil)); err != nil {
			return err
		}
	} else if err := refused("a root with a key", mk(po, []byte("a"))); err != nil {
		return err
	}
	if _, l, err := util.NewMappedTrieNode(p, []byte{0, 1, 2}, 900, known()); err != nil || l != 1 {
		return bad("end mark", "the end mark is read as %d bytes, %v", l, err)
	}
	if p != nil && p.ChildSize() != 0 {
		return bad("end mark", "the end mark is added as a child")
	}
	n, l, err := util.NewMappedTrieNode(p, whole, 900, known())
	if err != nil || l != len(whole) || n == nil {
		return bad("decode", "%v, %d of %d", err, l, len(whole))
	}
	return nil
}
