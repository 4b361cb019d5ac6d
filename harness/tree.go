package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"../../repo/src/util"
)

// Abstract values and records: the reference against which encodings,
// decodings and copies are judged.

type val struct {
	kind byte // 'p' primitive, 'a' value array, 'r' record list
	data []byte
	kids []*val
	recs []*rec
}

type rec struct {
	key    [][]byte // nil: absent
	value  *val
	scheme *val
	ts     *int64 // nanoseconds
	r, s   *big.Int
}

func prim(b ...byte) *val { return &val{kind: 'p', data: b} }
func primB(b []byte) *val { return &val{kind: 'p', data: b} }
func arr(k ...*val) *val  { return &val{kind: 'a', kids: k} }
func list(r ...*rec) *val { return &val{kind: 'r', recs: r} }
func i64(x int64) *int64  { return &x }
func parts(s ...string) (r [][]byte) {
	for _, x := range s {
		r = append(r, []byte(x))
	}
	return
}

// empty values of all kinds are the same value
func (v *val) isNil() bool {
	return v == nil || len(v.data)+len(v.kids)+len(v.recs) == 0
}

func showB(b []byte) string {
	if len(b) > 10 {
		return fmt.Sprintf("%x..%d", b[:3], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (v *val) String() string {
	if v == nil {
		return "-"
	}
	var p []string
	switch v.kind {
	case 'p':
		return "'" + showB(v.data) + "'"
	case 'a':
		for i, k := range v.kids {
			if i > 5 {
				p = append(p, fmt.Sprintf("..%d", len(v.kids)))
				break
			}
			p = append(p, k.String())
		}
		return "[" + strings.Join(p, " ") + "]"
	default:
		for i, k := range v.recs {
			if i > 5 {
				p = append(p, fmt.Sprintf("..%d", len(v.recs)))
				break
			}
			p = append(p, k.String())
		}
		return "{" + strings.Join(p, " ") + "}"
	}
}

func (r *rec) String() string {
	s := "rec("
	if r.key != nil {
		s += "k=" + subsString(r.key) + " "
	}
	if r.value != nil {
		s += "v=" + r.value.String() + " "
	}
	if r.scheme != nil {
		s += "s=" + r.scheme.String() + " "
	}
	if r.ts != nil {
		s += fmt.Sprintf("t=%d ", *r.ts)
	}
	if r.r != nil {
		s += "r=" + trunc(r.r.Text(16), 12) + " "
	}
	if r.s != nil {
		s += "s=" + trunc(r.s.Text(16), 12)
	}
	return s + ")"
}

// build makes the library's modifiable object.
func (v *val) build() util.IValue {
	switch v.kind {
	case 'p':
		if v.data == nil {
			return util.NewPrimitive(nil)
		}
		return util.NewPrimitive(append([]byte{}, v.data...))
	case 'a':
		a := util.NewValueArray()
		for _, k := range v.kids {
			a.Append(k.build())
		}
		return a
	default:
		l := util.NewRecordList()
		for _, r := range v.recs {
			l.Append(r.build())
		}
		return l
	}
}

func (r *rec) build() *util.Record {
	x := util.NewRecord()
	if r.key != nil {
		x.SetKey(buildKey(r.key))
	}
	if r.value != nil {
		x.SetValue(r.value.build())
	}
	if r.scheme != nil {
		x.SetScheme(r.scheme.build())
	}
	if r.ts != nil {
		t := time.Unix(0, *r.ts)
		x.SetTimestamp(&t)
	}
	if r.r != nil || r.s != nil {
		var a, b *big.Int
		if r.r != nil {
			a = new(big.Int).Set(r.r)
		}
		if r.s != nil {
			b = new(big.Int).Set(r.s)
		}
		x.SetSignature(a, b)
	}
	return x
}

// order of access to the elements of a container of n elements
type orderFn func(n int) []int

func forward(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func backward(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = n - 1 - i
	}
	return r
}

func inside(n int) []int { // middle first, then outwards
	var r []int
	for d := 0; d <= n; d++ {
		if i := n/2 + d; i < n {
			r = append(r, i)
		}
		if i := n/2 - d; d > 0 && i >= 0 {
			r = append(r, i)
		}
	}
	return r
}

func isNilI(v util.IValue) bool { return v == nil || isNilPtr(v) }

// match checks that an object of the library (decoded, constructed or
// copied) has exactly the content of v.
func match(v *val, x util.IValue, ord orderFn) error {
	if v.isNil() {
		if isNilI(x) {
			return nil
		}
		if !x.IsNil() {
			return bad("content", "expected an empty value, IsNil is false: %T %x", x, x.Value())
		}
		if len(x.Value()) != 0 || x.Size() != 0 {
			return bad("content", "empty value has content %x, size %d", x.Value(), x.Size())
		}
		return nil
	}
	if isNilI(x) {
		return bad("content", "value %v is missing", v)
	}
	if x.IsNil() {
		return bad("content", "value %v is reported as nil", v)
	}
	if x.IsPrimitive() != (v.kind == 'p') || x.IsValueArray() != (v.kind == 'a') || x.IsRecordList() != (v.kind == 'r') {
		return bad("kind", "value %v: primitive %v, array %v, list %v", v, x.IsPrimitive(), x.IsValueArray(), x.IsRecordList())
	}
	switch v.kind {
	case 'p':
		if !bytes.Equal(x.Value(), v.data) {
			return bad("content", "primitive %v comes back as '%s'", v, showB(x.Value()))
		}
		if x.Size() != 0 {
			return bad("size", "primitive has size %d", x.Size())
		}
		if _, err := x.ValueAt(0); err == nil {
			return bad("size", "primitive %v has an element", v)
		}
		if _, err := x.RecordAt(0); err == nil {
			return bad("size", "primitive %v has a record", v)
		}
	case 'a':
		if int(x.Size()) != len(v.kids) {
			return bad("size", "array %v has size %d", v, x.Size())
		}
		if len(x.Value()) != 0 {
			return bad("content", "array %v has primitive content %x", v, x.Value())
		}
		for _, i := range ord(len(v.kids)) {
			e, err := x.ValueAt(uint16(i))
			if err != nil {
				return bad("access", "element %d of %v: %v", i, v, err)
			}
			if err := match(v.kids[i], e, ord); err != nil {
				return bad(err.(*caseError).sig, "element %d: %v", i, err)
			}
		}
		if n := len(v.kids); n < 1000 { // a second access gives the same element
			for _, i := range ord(n) {
				a, err := x.ValueAt(uint16(i))
				b, err2 := x.ValueAt(uint16(i))
				if err != nil || err2 != nil || a.IsNil() != v.kids[i].isNil() || a.Size() != b.Size() || !bytes.Equal(a.Value(), b.Value()) || !bytes.Equal(a.Value(), v.kids[i].data) {
					return bad("access", "element %d of %v changes between accesses: %v %v", i, v, err, err2)
				}
			}
		}
		if len(v.kids) < 65535 {
			if _, err := x.ValueAt(uint16(len(v.kids))); err == nil {
				return bad("size", "array %v has an element beyond its size", v)
			}
		}
		if _, err := x.RecordAt(0); err == nil {
			return bad("size", "array %v has a record", v)
		}
	case 'r':
		if int(x.Size()) != len(v.recs) {
			return bad("size", "list %v has size %d", v, x.Size())
		}
		if len(x.Value()) != 0 {
			return bad("content", "list %v has primitive content %x", v, x.Value())
		}
		for _, i := range ord(len(v.recs)) {
			e, err := x.RecordAt(uint16(i))
			if err != nil {
				return bad("access", "record %d of %v: %v", i, v, err)
			}
			if err := matchRec(v.recs[i], e, ord); err != nil {
				return bad(err.(*caseError).sig, "record %d: %v", i, err)
			}
		}
		if len(v.recs) < 65535 {
			if _, err := x.RecordAt(uint16(len(v.recs))); err == nil {
				return bad("size", "list %v has a record beyond its size", v)
			}
		}
		if _, err := x.ValueAt(0); err == nil {
			return bad("size", "list %v has a value element", v)
		}
	}
	return nil
}

func (r *rec) hasSig() bool { return r.ts != nil && r.r != nil && r.s != nil }

func matchRec(r *rec, x util.IRecord, ord orderFn) error {
	return matchRecSig(r, x, ord, true)
}

func matchRecSig(r *rec, x util.IRecord, ord orderFn, sig bool) error {
	k := x.Key()
	if len(r.key) == 0 {
		if k != nil && !isNilPtr(k) && !k.IsEmpty() {
			return bad("key", "record %v: unexpected key %v", r, k.Key())
		}
	} else {
		if k == nil || isNilPtr(k) || k.IsEmpty() {
			return bad("key", "record %v lost its key", r)
		}
		if !eqSubs(k.Key(), r.key) {
			return bad("key", "record %v: key is %s", r, subsString(k.Key()))
		}
	}
	if err := match(r.value, x.Value(), ord); err != nil {
		return bad("value", "record %v: value: %v", r, err)
	}
	if err := match(r.scheme, x.Scheme(), ord); err != nil {
		return bad("scheme", "record %v: scheme: %v", r, err)
	}
	t := x.Timestamp()
	if (t == nil) != (r.ts == nil) {
		return bad("timestamp", "record %v: timestamp %v", r, t)
	}
	if t != nil && t.UnixNano() != *r.ts {
		return bad("timestamp", "record %v: timestamp %d", r, t.UnixNano())
	}
	if !sig {
		return nil
	}
	a, b := x.Signature()
	if !r.hasSig() {
		if r.r == nil && r.s == nil && (a != nil || b != nil) {
			return bad("signature", "record %v: unexpected signature %v %v", r, a, b)
		}
		return nil
	}
	if a == nil || b == nil || a.Cmp(r.r) != 0 || b.Cmp(r.s) != 0 {
		return bad("signature", "record %v: signature %v %v", r, a, b)
	}
	return nil
}

// walk visits every element of a decoded value; an error of an access is returned
func walk(x util.IValue) error {
	if isNilI(x) {
		return nil
	}
	x.IsNil()
	x.IsPrimitive()
	x.Value()
	if x.IsValueArray() {
		for i := 0; i < int(x.Size()); i++ {
			e, err := x.ValueAt(uint16(i))
			if err != nil {
				return err
			}
			if err := walk(e); err != nil {
				return err
			}
		}
	}
	if x.IsRecordList() {
		for i := 0; i < int(x.Size()); i++ {
			e, err := x.RecordAt(uint16(i))
			if err != nil {
				return err
			}
			if err := walkRec(e); err != nil {
				return err
			}
		}
	}
	return nil
}

func walkRec(x util.IRecord) error {
	if k := x.Key(); k != nil && !isNilPtr(k) {
		for i := range k.Key() {
			k.SubKeyAt(i)
		}
	}
	x.Timestamp()
	x.Signature()
	if err := walk(x.Value()); err != nil {
		return err
	}
	return walk(x.Scheme())
}
