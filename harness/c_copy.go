package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"../../repo/src/util"
)

// C12: copies are independent, encodings are never stale.
//
// A world holds up to three live objects of the library and, for each, a
// model object.  Model objects share children exactly as the library objects
// do, so the content every object must have is known after any sequence of
// modifications, encodings, copies and reuse of decoded buffers.

type mobj struct {
	kind   byte // 'k' key, 'p' primitive, 'a' array, 'l' record list, 'R' record, 's' scheme, 'c' consensus id
	parts  [][]byte
	data   []byte // primitive content; encoding of scheme and id
	kids   []*mobj
	k      *mobj
	v, s   *mobj
	ts     *int64
	sr, ss *big.Int

	mapped bool
	lib    interface{}
	valid  map[string]bool // encodings of contents since the last own modification
	src    []byte          // the buffer it was decoded (or built) from
	dead   bool
	prov   string
}

func (m *mobj) toVal() *val {
	if m == nil {
		return nil
	}
	switch m.kind {
	case 'p':
		return &val{kind: 'p', data: m.data}
	case 'a':
		v := &val{kind: 'a'}
		for _, k := range m.kids {
			v.kids = append(v.kids, k.toVal())
		}
		return v
	default:
		v := &val{kind: 'r'}
		for _, k := range m.kids {
			v.recs = append(v.recs, k.toRec())
		}
		return v
	}
}

func (m *mobj) toRec() *rec {
	r := &rec{value: m.v.toVal(), scheme: m.s.toVal(), ts: m.ts, r: m.sr, s: m.ss}
	if m.k != nil {
		r.key = m.k.parts
		if r.key == nil {
			r.key = [][]byte{}
		}
	}
	return r
}

func fromVal(v *val) *mobj {
	if v == nil {
		return nil
	}
	m := &mobj{kind: 'p', data: v.data, valid: map[string]bool{}}
	switch v.kind {
	case 'a':
		m.kind = 'a'
		for _, k := range v.kids {
			m.kids = append(m.kids, fromVal(k))
		}
	case 'r':
		m.kind = 'l'
		for _, k := range v.recs {
			m.kids = append(m.kids, fromRec(k))
		}
	}
	return m
}

func fromRec(r *rec) *mobj {
	m := &mobj{kind: 'R', v: fromVal(r.value), s: fromVal(r.scheme), ts: r.ts, sr: r.r, ss: r.s, valid: map[string]bool{}}
	if r.key != nil {
		m.k = &mobj{kind: 'k', parts: cpSubs(r.key), valid: map[string]bool{}}
	}
	return m
}

// reference encoding of the current content ("" if it cannot be encoded)
func (m *mobj) encoding() string {
	var e util.IEncodable
	switch m.kind {
	case 'k':
		e = buildKey(m.parts)
	case 'R':
		e = m.toRec().build()
	case 's', 'c':
		return string(m.data)
	default:
		e = m.toVal().build()
	}
	if e.Encode(nil) != nil {
		return ""
	}
	return string(e.Buf())
}

func (m *mobj) copyModel() *mobj {
	if m == nil {
		return nil
	}
	c := &mobj{kind: m.kind, parts: cpSubs(m.parts), data: m.data, k: m.k.copyModel(), v: m.v.copyModel(), s: m.s.copyModel(),
		ts: m.ts, sr: m.sr, ss: m.ss, mapped: m.mapped, valid: map[string]bool{}}
	for _, k := range m.kids {
		c.kids = append(c.kids, k.copyModel())
	}
	for e := range m.valid {
		c.valid[e] = true
	}
	return c
}

func (m *mobj) reach(x *mobj) bool {
	if m == nil {
		return false
	}
	if m == x || m.k.reach(x) || m.v.reach(x) || m.s.reach(x) {
		return true
	}
	for _, k := range m.kids {
		if k.reach(x) {
			return true
		}
	}
	return false
}

func (m *mobj) isDead() bool {
	if m == nil {
		return false
	}
	if m.dead || m.k.isDead() || m.v.isDead() || m.s.isDead() {
		return true
	}
	for _, k := range m.kids {
		if k.isDead() {
			return true
		}
	}
	return false
}

func (m *mobj) hasMapped() bool {
	if m == nil {
		return false
	}
	if m.mapped || m.k.hasMapped() || m.v.hasMapped() || m.s.hasMapped() {
		return true
	}
	for _, k := range m.kids {
		if k.hasMapped() {
			return true
		}
	}
	return false
}

type cop struct {
	code string
	i, j int
}

func (o cop) String() string { return fmt.Sprintf("%s(%d,%d)", o.code, o.i, o.j) }

func copsString(h []cop) string {
	var s []string
	for _, o := range h {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

type handout struct{ b, snap []byte }

type world struct {
	slots []*mobj
	outs  []handout
	size  int // payload size or element count of a sized world, 0 otherwise
}

// deepNode is a modifiable object inside another, at least two levels down
// (or its scheme, which no other operation reaches)
type deepNode struct {
	path []int // -1 key, -2 value, -3 scheme, otherwise an index
	m    *mobj
}

func (m *mobj) deepNodes() (r []deepNode) {
	var rec func(x *mobj, path []int)
	rec = func(x *mobj, path []int) {
		if x == nil || x.mapped || len(path) > 4 || len(r) >= 4 {
			return
		}
		if (len(path) >= 2 || len(path) == 1 && path[0] == -3) && x.kind != 'p' {
			r = append(r, deepNode{append([]int{}, path...), x})
		}
		rec(x.k, append(path, -1))
		rec(x.v, append(path, -2))
		rec(x.s, append(path, -3))
		for i, k := range x.kids {
			if i < 2 || i == len(x.kids)-1 {
				rec(k, append(path, i))
			}
		}
	}
	rec(m, nil)
	return
}

// libAt follows a path of deepNodes in the library object
func libAt(lib interface{}, path []int) interface{} {
	for _, p := range path {
		switch x := lib.(type) {
		case *util.Record:
			switch p {
			case -1:
				lib = x.Key()
			case -2:
				lib = x.Value()
			default:
				lib = x.Scheme()
			}
		case *util.ValueArray:
			v, err := x.ValueAt(uint16(p))
			if err != nil {
				return nil
			}
			lib = v
		case *util.RecordList:
			v, err := x.RecordAt(uint16(p))
			if err != nil {
				return nil
			}
			lib = v
		default:
			return nil
		}
	}
	return lib
}

func (wd *world) add(m *mobj, lib interface{}, prov string) {
	m.lib = lib
	m.prov = prov
	wd.slots = append(wd.slots, m)
}

const maxSlots = 3

// ops lists the operations applicable in this world
func (wd *world) ops() (r []cop) {
	maxKids := 4
	if wd.size > 0 {
		maxKids = wd.size + 4
	}
	for i, m := range wd.slots {
		if m.isDead() {
			continue
		}
		r = append(r, cop{"enc", i, 0})
		if !m.mapped {
			for x, d := range m.deepNodes() {
				if d.m.kind == 'R' || len(d.m.kids)+len(d.m.parts) < maxKids-1 {
					r = append(r, cop{"deep", i, x})
				}
			}
		}
		if len(wd.slots) < maxSlots {
			r = append(r, cop{"copy", i, 0}, cop{"cc", i, 0})
		}
		if m.src != nil {
			r = append(r, cop{"scribble", i, 0})
		}
		if m.mapped {
			if m.kind == 'a' || m.kind == 'l' || m.kind == 'R' {
				r = append(r, cop{"access", i, 0})
			}
			continue
		}
		switch m.kind {
		case 'k':
			if len(m.parts) < maxKids {
				r = append(r, cop{"add", i, 0}, cop{"add", i, 1})
				for j, o := range wd.slots {
					if o.kind == 'k' && len(o.parts) > 0 && !o.isDead() {
						r = append(r, cop{"addshare", i, j})
					}
				}
			}
		case 'a':
			if len(m.kids) < maxKids {
				r = append(r, cop{"appendp", i, 0}, cop{"appenda", i, 0})
				for j, o := range wd.slots {
					if (o.kind == 'a' || o.kind == 'p' || o.kind == 'l') && !o.isDead() && !o.reach(m) {
						r = append(r, cop{"append", i, j})
					}
				}
			}
			if len(m.kids) > 0 {
				r = append(r, cop{"del", i, 0})
				if len(m.kids) > 1 {
					r = append(r, cop{"del", i, len(m.kids) - 1})
				}
				for x := range m.kids {
					if k := m.kids[x]; k.kind == 'a' && !k.mapped && (x == 0 || x == len(m.kids)-1) {
						if len(k.kids) < 3 {
							r = append(r, cop{"nestappend", i, x})
						}
						if len(k.kids) > 0 {
							r = append(r, cop{"nestdel", i, x})
						}
					}
				}
			}
		case 'l':
			if len(m.kids) < maxKids-1 {
				r = append(r, cop{"appendr", i, 0})
				for j, o := range wd.slots {
					if o.kind == 'R' && !o.isDead() && !o.reach(m) {
						r = append(r, cop{"append", i, j})
					}
				}
			}
			if len(m.kids) > 0 {
				r = append(r, cop{"del", i, 0})
				if !m.kids[0].mapped {
					r = append(r, cop{"nestsetv", i, 0}, cop{"nestsetk", i, 0})
				}
			}
		case 'R':
			for x := 0; x < 12; x++ {
				r = append(r, cop{"set", i, x})
			}
			for j, o := range wd.slots {
				if o.isDead() || o.reach(m) {
					continue
				}
				switch o.kind {
				case 'k':
					r = append(r, cop{"setkey", i, j})
				case 'a', 'p', 'l':
					r = append(r, cop{"setvalue", i, j})
				}
			}
			if m.k != nil && !m.k.mapped && len(m.k.parts) < 3 {
				r = append(r, cop{"nestadd", i, 0})
			}
			if m.v != nil && m.v.kind == 'a' && !m.v.mapped && len(m.v.kids) < 3 {
				r = append(r, cop{"nestvappend", i, 0})
			}
		}
	}
	return
}

func (m *mobj) touched() { m.valid = map[string]bool{} }

// apply performs o on the library objects and the model
func (wd *world) apply(o cop) error {
	m := wd.slots[o.i]
	switch o.code {
	case "enc":
		want := m.encoding()
		e, ok := m.lib.(util.IEncodable)
		if !ok {
			return nil
		}
		err := e.Encode(nil)
		if err != nil {
			if want != "" && !m.hasMapped() && m.kind != 's' {
				return bad("encode", "encoding slot %d fails: %v", o.i, err)
			}
			return nil
		}
		got := e.Buf()
		if m.mapped {
			break
		}
		if string(got) != want {
			return bad("stale", "slot %d encodes as %s, the encoding of its content is %s", o.i, showBB(got), showBB([]byte(want)))
		}
		wd.outs = append(wd.outs, handout{got, append([]byte{}, got...)})
	case "copy", "cc":
		var lib interface{}
		c := m.copyModel()
		if o.code == "copy" {
			switch x := m.lib.(type) {
			case util.IConsensusID:
				lib = x.Copy()
			case util.IEncodable:
				lib = x.Copy()
			}
		} else {
			e, ok := m.lib.(util.IEncodable)
			if !ok {
				return nil
			}
			l, err := e.CopyConstruct()
			if err != nil {
				return bad("copy", "CopyConstruct of slot %d: %v", o.i, err)
			}
			lib = l
			if m.kind != 's' {
				c.unmap()
			}
			if _, ok := l.(*util.Primitive); ok { // empty containers are the nil value
				c.kind = 'p'
			}
			if _, ok := l.(*util.Key); m.kind == 'k' && !ok {
				c.mapped = true // an empty key that cannot be extended
			}
		}
		if m.kind == 's' {
			c.mapped = false
		}
		wd.add(c, lib, fmt.Sprintf("%s %d %v", o.code, o.i, m.mapped))
	case "scribble":
		for i := range m.src {
			m.src[i] ^= 0x55
		}
		m.dead = true
	case "access":
		switch x := m.lib.(type) {
		case util.IRecord:
			walkRec(x)
		case util.IValue:
			walk(x)
		}
	case "add":
		p := []byte([]string{"p", "qq"}[o.j])
		if wd.size > 0 && o.j == 1 {
			p = fill(wd.size, 5)
		}
		m.lib.(*util.Key).Add(append([]byte{}, p...))
		m.parts = append(cpSubs(m.parts), p)
		m.touched()
	case "addshare":
		x := wd.slots[o.j]
		m.lib.(*util.Key).Add(x.lib.(util.IKey).SubKeyAt(0))
		m.parts = append(cpSubs(m.parts), append([]byte{}, x.parts[0]...))
		m.touched()
		x.src = nil // now shares the caller's bytes: changing them later would be the caller's doing
	case "appendp":
		m.lib.(*util.ValueArray).Append(util.NewPrimitive([]byte{9}))
		m.kids = append(append([]*mobj{}, m.kids...), &mobj{kind: 'p', data: []byte{9}, valid: map[string]bool{}})
		m.touched()
	case "appenda":
		m.lib.(*util.ValueArray).Append(util.NewValueArray().Append(util.NewPrimitive([]byte{8})))
		m.kids = append(append([]*mobj{}, m.kids...), fromVal(arr(prim(8))))
		m.touched()
	case "appendr":
		m.lib.(*util.RecordList).Append(util.NewRecord().SetK([]byte("x")).SetV([]byte{7}))
		m.kids = append(append([]*mobj{}, m.kids...), fromRec(&rec{key: parts("x"), value: prim(7)}))
		m.touched()
	case "append":
		x := wd.slots[o.j]
		if m.kind == 'a' {
			m.lib.(*util.ValueArray).Append(x.lib.(util.IValue))
		} else {
			m.lib.(*util.RecordList).Append(x.lib.(util.IRecord))
		}
		m.kids = append(append([]*mobj{}, m.kids...), x)
		m.touched()
	case "del":
		if m.kind == 'a' {
			m.lib.(*util.ValueArray).DeleteAt(uint16(o.j))
		} else {
			m.lib.(*util.RecordList).DeleteAt(uint16(o.j))
		}
		m.kids = append(append([]*mobj{}, m.kids[:o.j]...), m.kids[o.j+1:]...)
		m.touched()
	case "deep":
		d := m.deepNodes()[o.j]
		lib := libAt(m.lib, d.path)
		switch d.m.kind {
		case 'a':
			a, ok := lib.(*util.ValueArray)
			if !ok {
				return nil // copied from an encoded empty array, which is the nil value
			}
			a.Append(util.NewPrimitive([]byte{4}))
			d.m.kids = append(append([]*mobj{}, d.m.kids...), fromVal(prim(4)))
		case 'l':
			a, ok := lib.(*util.RecordList)
			if !ok {
				return nil
			}
			a.Append(util.NewRecord().SetK([]byte("x")))
			d.m.kids = append(append([]*mobj{}, d.m.kids...), fromRec(&rec{key: parts("x")}))
		case 'k':
			k, ok := lib.(*util.Key)
			if !ok {
				return nil
			}
			k.Add([]byte("n"))
			d.m.parts = append(cpSubs(d.m.parts), []byte("n"))
		case 'R':
			r, ok := lib.(*util.Record)
			if !ok {
				return bad("access", "no record at %v", d.path)
			}
			r.SetV([]byte{5, 5})
			d.m.v = fromVal(prim(5, 5))
		}
		d.m.touched()
	case "nestappend", "nestdel":
		e, err := m.lib.(util.IValue).ValueAt(uint16(o.j))
		if err != nil {
			return bad("access", "%v", err)
		}
		k := m.kids[o.j]
		if _, ok := e.(*util.ValueArray); !ok {
			return nil // copied from an encoded empty array, which is the nil value
		}
		if o.code == "nestappend" {
			e.(*util.ValueArray).Append(util.NewPrimitive([]byte{6}))
			k.kids = append(append([]*mobj{}, k.kids...), fromVal(prim(6)))
		} else {
			e.(*util.ValueArray).DeleteAt(0)
			k.kids = append([]*mobj{}, k.kids[1:]...)
		}
		k.touched()
	case "nestsetv", "nestsetk":
		e, err := m.lib.(util.IValue).RecordAt(0)
		if err != nil {
			return bad("access", "%v", err)
		}
		k := m.kids[0]
		if o.code == "nestsetv" {
			e.(*util.Record).SetV([]byte{5, 5})
			k.v = fromVal(prim(5, 5))
		} else {
			e.(*util.Record).SetK([]byte("nk"))
			k.k = &mobj{kind: 'k', parts: parts("nk"), valid: map[string]bool{}}
		}
		k.touched()
	case "set":
		r := m.lib.(*util.Record)
		switch o.j {
		case 0:
			r.SetK([]byte("a"))
			m.k = &mobj{kind: 'k', parts: parts("a"), valid: map[string]bool{}}
		case 1:
			r.SetKey(util.NewStringKey("b").Add([]byte("c")))
			m.k = &mobj{kind: 'k', parts: parts("b", "c"), valid: map[string]bool{}}
		case 2:
			r.SetKey(nil)
			m.k = nil
		case 3:
			r.SetV([]byte{1})
			m.v = fromVal(prim(1))
		case 4:
			r.SetValue(util.NewValueArray().Append(util.NewPrimitive([]byte{2})))
			m.v = fromVal(arr(prim(2)))
		case 5:
			r.SetValue(nil)
			m.v = nil
		case 6:
			r.SetS([]byte{3})
			m.s = fromVal(prim(3))
		case 7:
			r.SetScheme(nil)
			m.s = nil
		case 8:
			t := time.Unix(0, 12345)
			r.SetTimestamp(&t)
			m.ts = i64(12345)
		case 9:
			r.SetTimestamp(nil)
			m.ts = nil
		case 10:
			r.SetSignature(big.NewInt(77), big.NewInt(88))
			m.sr, m.ss = big.NewInt(77), big.NewInt(88)
		case 11:
			r.SetSignature(nil, nil)
			m.sr, m.ss = nil, nil
		}
		m.touched()
	case "setkey":
		m.lib.(*util.Record).SetKey(wd.slots[o.j].lib.(util.IKey))
		m.k = wd.slots[o.j]
		m.touched()
	case "setvalue":
		m.lib.(*util.Record).SetValue(wd.slots[o.j].lib.(util.IValue))
		m.v = wd.slots[o.j]
		m.touched()
	case "nestadd":
		k, ok := m.lib.(util.IRecord).Key().(*util.Key)
		if !ok { // an empty key that cannot be extended
			return nil
		}
		k.Add([]byte("n"))
		m.k.parts = append(cpSubs(m.k.parts), []byte("n"))
		m.k.touched()
	case "nestvappend":
		if _, ok := m.lib.(util.IRecord).Value().(*util.ValueArray); !ok {
			return nil
		}
		m.lib.(util.IRecord).Value().(*util.ValueArray).Append(util.NewPrimitive([]byte{4}))
		m.v.kids = append(append([]*mobj{}, m.v.kids...), fromVal(prim(4)))
		m.v.touched()
	}
	// every encoding an object's content has had since its last modification
	for _, x := range wd.slots {
		x.note()
	}
	return nil
}

func (m *mobj) note() {
	if m == nil {
		return
	}
	m.k.note()
	m.v.note()
	m.s.note()
	for _, k := range m.kids {
		k.note()
	}
	m.valid[m.encoding()] = true
}

func (m *mobj) unmap() {
	if m == nil {
		return
	}
	m.mapped = false
	m.k.unmap()
	m.v.unmap()
	m.s.unmap()
	for _, k := range m.kids {
		k.unmap()
	}
}

func showBB(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x..(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// check compares every live object with its model
func (wd *world) check() error {
	for i, m := range wd.slots {
		if m.isDead() {
			continue
		}
		var err error
		switch x := m.lib.(type) {
		case util.IKey:
			if !eqSubs(x.Key(), m.parts) {
				err = bad("content", "key is %s, expected %s", subsString(x.Key()), subsString(m.parts))
			} else if !x.Equal(buildKey(m.parts)) || x.IsEmpty() != (len(m.parts) == 0) {
				err = bad("content", "key %s does not equal a fresh key", subsString(m.parts))
			}
		case util.IRecord:
			err = matchRec(m.toRec(), x, backward)
		case util.IValue:
			err = match(m.toVal(), x, backward)
		case util.IConsensusID:
			if !bytes.Equal(x.Buf(), m.data) || x.ConsensusMagic() != m.data[0] {
				err = bad("content", "consensus id is %x, expected %x", x.Buf(), m.data)
			}
		case *util.MappedScheme:
			err = matchScheme(m.data, x)
		case *util.Scheme:
			err = matchScheme(m.data, x)
		}
		if err != nil {
			ce := err.(*caseError)
			return bad(ce.sig, "slot %d: %s", i, ce.msg)
		}
		if e, ok := m.lib.(util.IEncodable); ok && e.IsEncoded() {
			got := string(e.Buf())
			if m.mapped {
				if got != m.encoding() && m.kind != 'k' {
					return bad("content", "slot %d: buffer %s, expected %s", i, showBB([]byte(got)), showBB([]byte(m.encoding())))
				}
			} else if !m.valid[got] {
				return bad("stale", "slot %d claims to be encoded, its buffer %s is not an encoding it had since its last modification; content encodes as %s", i, showBB([]byte(got)), showBB([]byte(m.encoding())))
			}
		}
	}
	for _, h := range wd.outs {
		if !bytes.Equal(h.b, h.snap) {
			return bad("handout", "an encoding handed out earlier changed from %s to %s", showBB(h.snap), showBB(h.b))
		}
	}
	return nil
}

type schemeView interface {
	Domain() []byte
	DomainName() string
	Tablet() []byte
	TabletName() string
	Buckets() [][]byte
	BucketAt(int) []byte
}

// schemeParts parses the encoding of a scheme (reference)
func schemeParts(enc []byte) (dom, tab []byte, bks [][]byte) {
	pos := 1
	str := func() []byte {
		n, k := 0, 0
		for sh := 0; ; sh += 7 {
			c := enc[pos+k]
			k++
			n |= int(c&0x7f) << sh
			if c < 0x80 {
				break
			}
		}
		s := enc[pos+k : pos+k+n]
		pos += k + n
		return append([]byte{}, s...)
	}
	if enc[0]&0x80 != 0 {
		dom = str()
	}
	if enc[0]&0x40 != 0 {
		tab = str()
	}
	if enc[0]&0x20 != 0 {
		n, k := 0, 0
		for sh := 0; ; sh += 7 {
			c := enc[pos+k]
			k++
			n |= int(c&0x7f) << sh
			if c < 0x80 {
				break
			}
		}
		pos += k
		bks = [][]byte{}
		for i := 0; i < n; i++ {
			bks = append(bks, str())
		}
	}
	return
}

func matchScheme(enc []byte, s schemeView) error {
	d, t, b := schemeParts(enc)
	if (s.Domain() == nil) != (d == nil) || !bytes.Equal(s.Domain(), d) || s.DomainName() != string(d) {
		return bad("content", "scheme %s: domain %s (%v)", showBB(enc), showBB(s.Domain()), s.Domain() == nil)
	}
	if (s.Tablet() == nil) != (t == nil) || !bytes.Equal(s.Tablet(), t) || s.TabletName() != string(t) {
		return bad("content", "scheme %s: tablet %s (%v)", showBB(enc), showBB(s.Tablet()), s.Tablet() == nil)
	}
	if (s.Buckets() == nil) != (b == nil) || len(s.Buckets()) != len(b) {
		return bad("content", "scheme %s: %d buckets (%v), expected %d", showBB(enc), len(s.Buckets()), s.Buckets() == nil, len(b))
	}
	for i := range b {
		if !bytes.Equal(s.Buckets()[i], b[i]) || !bytes.Equal(s.BucketAt(i), b[i]) {
			return bad("content", "scheme %s: bucket %d is %s", showBB(enc), i, showBB(s.BucketAt(i)))
		}
	}
	return nil
}

type worldInit struct {
	name  string
	depth [2]int // quick, thorough
	make  func() (*world, error)
}

func mappedOf(m *mobj, tail []byte) (*mobj, error) {
	enc := m.encoding()
	buf := append([]byte(enc), tail...)
	if enc == "" {
		return nil, bad("init", "cannot encode the initial object")
	}
	var err error
	switch m.kind {
	case 'k':
		m.lib, _, err = util.NewMappedKey(buf)
	case 'R':
		m.lib, _, err = util.NewMappedRecord(buf)
	case 's':
		s := util.NewMappedSchemd(buf)
		_, err = s.Decode(nil)
		m.lib = s
	case 'c':
		m.lib, err = util.NewMappedConsensusID(buf)
	default:
		m.lib, _, err = util.NewStandardMappedValue(buf)
	}
	if err != nil {
		return nil, bad("init", "decoding the initial object: %v", err)
	}
	m.mapped = true
	m.markMapped()
	m.src = buf
	return m, nil
}

func (m *mobj) markMapped() {
	if m == nil {
		return
	}
	m.mapped = true
	m.k.markMapped()
	m.v.markMapped()
	m.s.markMapped()
	for _, k := range m.kids {
		k.markMapped()
	}
}

func keyM(p ...string) *mobj {
	return &mobj{kind: 'k', parts: parts(p...), valid: map[string]bool{}}
}

func single(f func() (*mobj, error)) func() (*world, error) {
	return func() (*world, error) {
		m, err := f()
		if err != nil {
			return nil, err
		}
		wd := &world{}
		wd.add(m, m.lib, "init")
		return wd, nil
	}
}

func builtM(m *mobj) (*mobj, error) {
	switch m.kind {
	case 'k':
		m.lib = buildKey(m.parts)
	case 'R':
		m.lib = m.toRec().build()
	default:
		m.lib = m.toVal().build()
	}
	return m, nil
}

func worldInits() (r []worldInit) {
	add := func(name string, q, t int, f func() (*mobj, error)) {
		r = append(r, worldInit{name, [2]int{q, t}, single(f)})
	}
	// keys
	add("emptykey", 5, 7, func() (*mobj, error) {
		m := keyM()
		m.lib = util.NewEmptyKey()
		m.mapped = true // cannot be extended
		return m, nil
	})
	add("newkey", 6, 8, func() (*mobj, error) { m := keyM(); m.lib = util.NewKey(); return m, nil })
	add("key1", 6, 7, func() (*mobj, error) { m := keyM("a"); m.lib = util.NewStringKey("a"); return m, nil })
	add("simplekey", 6, 7, func() (*mobj, error) {
		m := keyM("a")
		m.src = []byte("a")
		m.lib = util.NewSimpleKey(m.src)
		return m, nil
	})
	add("mappedkey", 6, 7, func() (*mobj, error) { return mappedOf(keyM("a", "bc"), nil) })
	add("mappedkeytail", 6, 7, func() (*mobj, error) { return mappedOf(keyM("a"), []byte{1, 1, 'z'}) })
	// values
	for _, v := range []struct {
		n string
		v *val
		q int
	}{
		{"prim", prim(1, 2), 5}, {"array0", arr(), 5}, {"array2", arr(prim(1), prim(2)), 5}, {"nested", arr(arr(prim(1)), prim(2)), 5},
		{"list0", list(), 5}, {"list1", list(&rec{key: parts("k"), value: prim(1)}), 5},
		{"arraylist", arr(list(&rec{key: parts("k"), value: arr(prim(1))})), 5},
	} {
		v := v
		add(v.n, v.q, v.q+1, func() (*mobj, error) { return builtM(fromVal(v.v)) })
		add("mapped"+v.n, v.q, v.q+1, func() (*mobj, error) { return mappedOf(fromVal(v.v), []byte{1, 1, 9}) })
	}
	add("primshared", 5, 6, func() (*mobj, error) {
		m := fromVal(prim(1, 2))
		m.src = []byte{1, 2}
		m.lib = util.NewPrimitive(m.src)
		return m, nil
	})
	// records
	for _, x := range []struct {
		n string
		r *rec
		q int
	}{
		{"rec0", &rec{}, 4},
		{"reckv", &rec{key: parts("k"), value: arr(prim(1))}, 4},
		{"recall", &rec{key: parts("k", "l"), value: arr(arr(prim(1))), scheme: prim(2), ts: i64(99), r: big.NewInt(1), s: big.NewInt(2)}, 4},
		{"reclist", &rec{value: list(&rec{key: parts("i")})}, 4},
	} {
		x := x
		add(x.n, x.q, x.q+1, func() (*mobj, error) { return builtM(fromRec(x.r)) })
		add("mapped"+x.n, x.q, x.q+1, func() (*mobj, error) { return mappedOf(fromRec(x.r), []byte{1, 2, 3}) })
	}
	// two objects: a record and a key / array to be put into it
	pair := func(name string, q, t int, f ...func() (*mobj, error)) {
		r = append(r, worldInit{name, [2]int{q, t}, func() (*world, error) {
			wd := &world{}
			for _, g := range f {
				m, err := g()
				if err != nil {
					return nil, err
				}
				wd.add(m, m.lib, "init")
			}
			return wd, nil
		}})
	}
	b := func(m func() *mobj) func() (*mobj, error) { return func() (*mobj, error) { return builtM(m()) } }
	mp := func(m func() *mobj) func() (*mobj, error) {
		return func() (*mobj, error) { return mappedOf(m(), nil) }
	}
	rec1 := func() *mobj { return fromRec(&rec{key: parts("k"), value: prim(1)}) }
	arr1 := func() *mobj { return fromVal(arr(prim(1))) }
	key1 := func() *mobj { return keyM("a", "b") }
	lst1 := func() *mobj { return fromVal(list()) }
	pair("rec+key", 4, 5, b(rec1), b(key1))
	pair("rec+mappedkey", 4, 5, b(rec1), mp(key1))
	pair("rec+array", 4, 5, b(rec1), b(arr1))
	pair("rec+mappedarray", 4, 5, b(rec1), mp(arr1))
	pair("array+array", 4, 5, b(arr1), b(arr1))
	pair("array+mappedarray", 4, 5, b(arr1), mp(arr1))
	pair("list+rec", 4, 5, b(lst1), b(rec1))
	pair("list+mappedrec", 4, 5, b(lst1), mp(rec1))
	pair("key+mappedkey", 5, 6, b(key1), mp(key1))
	// schemes and ids
	for i, e := range [][]byte{{0}, {0x80, 1, 'd'}, {0x40, 2, 't', 'u'}, {0x20, 2, 1, 'a', 2, 'b', 'c'}, {0xe0, 1, 'd', 1, 't', 2, 1, 'a', 0}, {0xe0, 0, 0, 0}} {
		e := e
		add(fmt.Sprintf("scheme%d", i), 5, 7, func() (*mobj, error) {
			return mappedOf(&mobj{kind: 's', data: e, valid: map[string]bool{}}, []byte{1, 7})
		})
	}
	for _, mg := range []byte{0x80, 0x18, 0xf8} {
		n := 1
		for i := uint(4); i < 8; i++ {
			if mg>>i&1 != 0 {
				n += 32
			}
		}
		if mg&8 != 0 {
			n += 64
		}
		e := append([]byte{mg}, fill(n-1, 3)...)
		add(fmt.Sprintf("id%x", mg), 5, 7, func() (*mobj, error) {
			return mappedOf(&mobj{kind: 'c', data: e, valid: map[string]bool{}}, []byte{1, 7})
		})
	}
	return
}

// sizedInits: worlds around objects whose payloads have the given length (or
// which have that many parts)
func sizedInits(n int, count bool) (r []worldInit) {
	add := func(name string, f func() (*mobj, error)) {
		r = append(r, worldInit{name, [2]int{2, 2}, func() (*world, error) {
			wd, err := single(f)()
			if wd != nil {
				wd.size = n
			}
			return wd, err
		}})
	}
	both := func(name string, f func() *mobj) {
		add(name, func() (*mobj, error) { return builtM(f()) })
		add("mapped"+name, func() (*mobj, error) { return mappedOf(f(), []byte{1, 1, 9}) })
	}
	b := fill(n, 7)
	pv := &val{kind: 'p', data: b}
	str := func(b []byte) []byte { return join(util.EncodeUvarint64(uint64(len(b))), b) }
	if !count {
		if n <= util.MAX_KEY_LENGTH-3 {
			both("key", func() *mobj { return &mobj{kind: 'k', parts: [][]byte{b}, valid: map[string]bool{}} })
			add("simplekey", func() (*mobj, error) {
				m := &mobj{kind: 'k', parts: [][]byte{b}, valid: map[string]bool{}}
				m.src = append([]byte{}, b...)
				m.lib = util.NewSimpleKey(m.src)
				return m, nil
			})
		}
		both("prim", func() *mobj { return fromVal(pv) })
		add("primshared", func() (*mobj, error) {
			m := fromVal(pv)
			m.src = append([]byte{}, b...)
			m.lib = util.NewPrimitive(m.src)
			return m, nil
		})
		both("array", func() *mobj { return fromVal(arr(pv, prim(1))) })
		both("nested", func() *mobj { return fromVal(arr(arr(pv), prim(1))) })
		kb := b
		if n > util.MAX_KEY_LENGTH-3 {
			kb = b[:7]
		}
		both("list", func() *mobj { return fromVal(list(&rec{key: [][]byte{kb}, value: pv})) })
		sv := prim(3)
		if n <= util.MAX_SCHEME_LENGTH-3 {
			sv = pv
		}
		both("rec", func() *mobj { return fromRec(&rec{key: [][]byte{kb}, value: pv, scheme: sv}) })
		both("recnested", func() *mobj { return fromRec(&rec{key: [][]byte{kb}, value: arr(arr(pv))}) })
		if n <= util.MAX_SCHEME_LENGTH-16 {
			for i, e := range [][]byte{join([]byte{0x80}, str(b)), join([]byte{0xc0, 1, 'd'}, str(b)), join([]byte{0xe0, 1, 'd', 1, 't', 2, 1, 'a'}, str(b))} {
				e := e
				add(fmt.Sprintf("scheme%d", i), func() (*mobj, error) {
					return mappedOf(&mobj{kind: 's', data: e, valid: map[string]bool{}}, []byte{1, 7})
				})
			}
		}
		return
	}
	var ps [][]byte
	var ks []*val
	var rs []*rec
	e := join([]byte{0x20}, util.EncodeUvarint64(uint64(n)))
	for i := 0; i < n; i++ {
		p := []byte{byte(i>>8) + 1, byte(i)}
		ps = append(ps, p)
		ks = append(ks, &val{kind: 'p', data: p})
		rs = append(rs, &rec{key: [][]byte{p}})
		e = append(append(e, 2), p...)
	}
	both("keys", func() *mobj { return &mobj{kind: 'k', parts: ps, valid: map[string]bool{}} })
	both("arrays", func() *mobj { return fromVal(arr(ks...)) })
	both("nests", func() *mobj { return fromVal(arr(prim(1), arr(ks...), prim(2))) })
	both("lists", func() *mobj { return fromVal(list(rs...)) })
	both("recs", func() *mobj { return fromRec(&rec{key: ps, value: arr(ks...)}) })
	if len(e) <= util.MAX_SCHEME_LENGTH {
		add("schemes", func() (*mobj, error) {
			return mappedOf(&mobj{kind: 's', data: e, valid: map[string]bool{}}, []byte{1, 7})
		})
	}
	return
}

// sizedCopies: every short history around objects of every size
func sizedCopies(w *W) bool {
	type job struct {
		n     int
		count bool
	}
	var jobs []job
	top, ctop := 72, 12
	if !w.Quick() {
		top, ctop = 1200, 300
	}
	for n := 1; n <= top; n++ {
		jobs = append(jobs, job{n, false})
	}
	for _, n := range []int{96, 120, 121, 127, 128, 129, 130, 160, 200, 248, 252, 253, 254, 255, 256, 257, 258, 259, 300, 400, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32768, 56000} {
		if n > top {
			jobs = append(jobs, job{n, false})
		}
	}
	for n := 5; n <= ctop; n++ {
		jobs = append(jobs, job{n, true})
	}
	for _, n := range []int{31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 300} {
		if n > ctop {
			jobs = append(jobs, job{n, true})
		}
	}
	for x, j := range jobs {
		for _, in := range sizedInits(j.n, j.count) {
			in := in
			suite := "sized_" + in.name
			full := func(h []cop) error {
				wd, err := in.replay(h)
				if err != nil {
					return err
				}
				return wd.check()
			}
			if id, ok := w.Only(suite); ok {
				var n int
				if k, _ := fmt.Sscanf(id, "%d:", &n); k != 1 || n != j.n {
					continue
				}
				h, err := parseCops(id[strings.IndexByte(id, ':')+1:])
				if err != nil {
					panic(err)
				}
				w.Exec(suite, func() string { return id }, func() error { return full(h) })
				continue
			}
			if w.Replaying() || x%w.N != w.Shard {
				continue
			}
			// every history of two operations, alone and after an encoding,
			// an access or a copy
			var run func(h []cop, left int) bool
			run = func(h []cop, left int) bool {
				if w.Expired() {
					return false
				}
				var ops []cop
				w.Exec(suite, func() string { return fmt.Sprintf("%d:%s", j.n, copsString(h)) }, func() error {
					wd, err := in.replay(h)
					if err != nil {
						return err
					}
					w.transitions++
					ops = wd.ops()
					return wd.check()
				})
				if w.stop {
					return false
				}
				if left == 0 {
					return true
				}
				for _, o := range ops {
					if o.code == "set" && o.j > 2 && o.j != 3 && o.j != 8 && len(h) > 0 {
						continue
					}
					d := left - 1
					if len(h) == 0 && d == 1 && (o.code == "enc" || o.code == "access" || o.code == "copy" || o.code == "cc") {
						d = 2
					}
					if !run(append(append([]cop{}, h...), o), d) {
						return false
					}
				}
				return true
			}
			if !run(nil, 2) {
				return false
			}
		}
	}
	return true
}

// replay a history; the last operation's checks are left to the caller
func (in worldInit) replay(h []cop) (*world, error) {
	wd, err := in.make()
	if err != nil {
		return nil, err
	}
	for _, m := range wd.slots {
		m.note()
	}
	for _, o := range h {
		if err := wd.apply(o); err != nil {
			return nil, err
		}
	}
	return wd, nil
}

func (wd *world) fp() uint64 {
	var vs []interface{}
	for _, m := range wd.slots {
		vs = append(vs, m.lib, m.dead, m.prov, m.src, m.isDead(), m.encoding())
	}
	for _, o := range wd.outs {
		vs = append(vs, o.b)
	}
	return fingerprint(true, vs...)
}

func checkCopies(w *W) {
	if !sizedCopies(w) {
		return
	}
	item := 0
	for _, in := range worldInits() {
		in := in
		depth := in.depth[0]
		if !w.Quick() {
			depth = in.depth[1]
		}
		suite := "world_" + in.name
		full := func(h []cop) error {
			wd, err := in.replay(h)
			if err != nil {
				return err
			}
			return wd.check()
		}
		if id, ok := w.Only(suite); ok {
			h, err := parseCops(id)
			if err != nil {
				panic(err)
			}
			w.Exec(suite, func() string { return id }, func() error { return full(h) })
			continue
		}
		if w.Replaying() {
			continue
		}
		item++
		var first []cop
		if err := protect(func() error {
			wd, err := in.replay(nil)
			if err != nil {
				return err
			}
			first = wd.ops()
			return wd.check()
		}); err != nil {
			if w.Shard == 0 {
				w.Exec(suite, func() string { return "" }, func() error { return full(nil) })
			}
			continue
		}
		for _, f := range first {
			item++
			if item%w.N != w.Shard {
				continue
			}
			seen := map[uint64]bool{}
			frontier := [][]cop{{f}}
			for d := 1; d <= depth && len(frontier) > 0; d++ {
				var next [][]cop
				for _, h := range frontier {
					h := h
					if w.evals&255 == 0 && w.Expired() {
						return
					}
					var fp uint64
					var ops []cop
					ok := false
					w.Exec(suite, func() string { return copsString(h) }, func() error {
						wd, err := in.replay(h)
						if err != nil {
							return err
						}
						w.transitions++
						fp = wd.fp()
						ops = wd.ops()
						if err := wd.check(); err != nil {
							return err
						}
						ok = true
						return nil
					})
					if w.stop {
						return
					}
					if !ok || seen[fp] {
						continue
					}
					seen[fp] = true
					w.traces++
					w.State(fp)
					if d < depth {
						for _, o := range ops {
							next = append(next, append(append([]cop{}, h...), o))
						}
					}
				}
				frontier = next
			}
		}
	}
}

func parseCops(s string) (h []cop, err error) {
	for _, f := range strings.Fields(s) {
		var o cop
		p := strings.IndexByte(f, '(')
		if p < 0 {
			return nil, fmt.Errorf("bad operation %q", f)
		}
		o.code = f[:p]
		if _, err := fmt.Sscanf(f[p:], "(%d,%d)", &o.i, &o.j); err != nil {
			return nil, err
		}
		h = append(h, o)
	}
	return h, nil
}

func init() {
	register("C12", checkInfo{level: "model_checking",
		rule:  "breadth-first search over all sequences of modifications, encodings, copies, nested modifications, sharing and buffer reuse on up to three live objects, in lock-step with a model whose objects share children as the library's do; states merged by a canonical dump of all live objects including memory sharing and spare capacity",
		assum: []string{"timestamps and signature numbers are immutable", "bytes given to a constructor are not changed by the caller, except that this must not show in copies", "an object containing a decoded value cannot be encoded (documented)"}}, checkCopies)
}
