//go:build vfsched

package main

import (
	crand "crypto/rand"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C26: two goroutines under a scheduler.  tools/instr puts a scheduling point
// in front of every statement of the packages (in a build-time copy); exactly
// one of the goroutines runs at a time, and the schedule says at which points
// the other one takes over.

type schedRun struct {
	cur    int
	seg    int // points passed since the last switch
	total  [2]int
	plan   []int // a switch after so many points of each segment
	pi     int
	done   [2]bool
	wake   [2]chan struct{}
	free   atomic.Bool // control given up (a goroutine blocks outside of it)
	passed atomic.Int64
}

var schedCur *schedRun

func schedHook() {
	s := schedCur
	if s == nil || s.free.Load() {
		return
	}
	me := s.cur
	s.total[me]++
	if s.pi < len(s.plan) {
		if s.seg == s.plan[s.pi] {
			s.pi++
			s.seg = 0
			s.passed.Add(1)
			if !s.done[1-me] {
				s.cur = 1 - me
				s.wake[1-me] <- struct{}{}
				<-s.wake[me]
			}
			s.seg++
			return
		}
	}
	s.seg++
}

type schedResult struct {
	out   [2]string
	total [2]int
	used  int // switches that took place
	stall bool
}

// runSched runs two functions; first starts.
func runSched(first int, plan []int, f [2]func() string) (r schedResult) {
	s := &schedRun{cur: first, plan: plan}
	s.wake[0], s.wake[1] = make(chan struct{}, 1), make(chan struct{}, 1)
	fin := make(chan int, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			<-s.wake[i]
			err := protect(func() error { r.out[i] = f[i](); return nil })
			if err != nil {
				r.out[i] = err.Error()
			}
			s.done[i] = true
			if !s.free.Load() {
				// the other one goes on, to its end
				s.cur = 1 - i
				s.pi = len(s.plan)
				if !s.done[1-i] {
					s.wake[1-i] <- struct{}{}
				}
			}
			fin <- i
		}()
	}
	schedCur = s
	s.wake[first] <- struct{}{}
	timer := time.NewTimer(3 * time.Second)
	for n := 0; n < 2; {
		select {
		case <-fin:
			n++
		case <-timer.C:
			// one waits for something the other one holds: let both run
			r.stall = true
			s.free.Store(true)
			for i := range s.wake {
				select {
				case s.wake[i] <- struct{}{}:
				default:
				}
			}
		}
	}
	timer.Stop()
	schedCur = nil
	r.total = s.total
	r.used = int(s.passed.Load())
	return
}

// constReader: random bytes that do not depend on who asks when
type constReader struct{}

func (constReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i*37 + 11)
	}
	return len(p), nil
}

// a program: make gives, for one run, the function of each goroutine
type schedProg struct {
	name   string
	shared bool // both goroutines read one object
	make   func() func(tid int) string
}

type lg struct{ strings.Builder }

func (l *lg) p(x ...interface{}) {
	if raceMode {
		touch(x)
		return
	}
	fmt.Fprintln(l, x...)
}

// sf is Sprintf; in the build with the race detector it only reads its arguments (fmt's pool would put the two
// goroutines in an order)
func sf(f string, x ...interface{}) string {
	if raceMode {
		touch(x)
		return ""
	}
	return fmt.Sprintf(f, x...)
}

func touch(x []interface{}) (n int) {
	for _, a := range x {
		switch a := a.(type) {
		case []byte:
			for _, c := range a {
				n += int(c)
			}
		case string:
			for i := 0; i < len(a); i++ {
				n += int(a[i])
			}
		case [][]byte:
			for _, b := range a {
				for _, c := range b {
					n += int(c)
				}
			}
		case *big.Int:
			if a != nil {
				n += a.BitLen()
			}
		}
	}
	return
}

func own(f func(tid int, l *lg)) func() func(int) string {
	return func() func(int) string {
		return func(tid int) string {
			var l lg
			f(tid, &l)
			return l.String()
		}
	}
}

func sval(v util.IValue) string {
	if isNilI(v) {
		return "nil"
	}
	s := sf("%v %v %v %d %x", v.IsPrimitive(), v.IsValueArray(), v.IsRecordList(), v.Size(), v.Value())
	if v.IsValueArray() {
		for i := uint16(0); i < v.Size(); i++ {
			e, err := v.ValueAt(i)
			if err != nil {
				s += sf(" [%d: error]", i)
			} else if isNilI(e) {
				s += sf(" [%d: nil without error]", i)
			} else {
				s += sf(" [%d: %s]", i, sval(e))
			}
		}
	}
	if v.IsRecordList() {
		for i := uint16(0); i < v.Size(); i++ {
			e, err := v.RecordAt(i)
			if err != nil {
				s += sf(" {%d: error}", i)
			} else if e == nil || isNilPtr(e) {
				s += sf(" {%d: nil without error}", i)
			} else {
				s += sf(" {%d: %s}", i, srec(e))
			}
		}
	}
	return s
}

func srec(r util.IRecord) string {
	s := sf("k=%s v=%s s=%s", skey(r.Key()), sval(r.Value()), sval(r.Scheme()))
	if t := r.Timestamp(); t != nil {
		s += sf(" t= %v", t.UnixNano())
	}
	if a, b := r.Signature(); a != nil {
		s += sf(" %x %x", a, b)
	}
	return s
}

func skey(k util.IKey) string {
	if k == nil || isNilPtr(k) {
		return "nil"
	}
	var r string
	for _, p := range k.Key() {
		r += sf("%x.", p)
	}
	return r
}

func ck(i int) collection.IComparable {
	return collection.NewComparableByteSlice([]byte{byte(i), byte(i * 3)})
}

// cpos says which of the keys ck(t), ck(1+t), ... k is
func cpos(k interface{}, t int) int {
	if k == nil || isNilPtr(k) {
		return -1
	}
	for i := 0; i < 12; i++ {
		if k.(collection.IComparable).Compare(ck(i+t)) == 0 {
			return i
		}
	}
	return -2
}

func isNilAny(x interface{}) bool { return x == nil || isNilPtr(x) }

func hb(i int) collection.IHashable { return collection.NewHashableByteSlice([]byte{byte(i), 7}) }

func schedKey(t int, s ...string) util.IKey {
	k := util.NewKey()
	for _, x := range s {
		k.Add([]byte(x + strconv.Itoa(t)))
	}
	return k
}

func enc(e util.IEncodable) []byte {
	if err := e.Encode(nil); err != nil {
		panic(err)
	}
	return append([]byte{}, e.Buf()...)
}

func schedTreeVal(t int) *val {
	b := byte(t)
	return arr(prim(1, b), arr(prim(2, b), prim()), list(&rec{key: parts("k" + strconv.Itoa(t)), value: prim(3, b)}), primB(repb(b+5, 20)))
}

func schedRec(t int) *rec {
	b := byte(t)
	return &rec{key: [][]byte{{b}, {b, 'x'}}, value: arr(prim(9, b), prim(b)), scheme: prim(4, b), ts: i64(int64(t)*1000003 + 17), r: big.NewInt(int64(t)*77 + 5), s: big.NewInt(int64(t) + 3)}
}

func schedPrograms() (ps []schedProg) {
	add := func(name string, f func(tid int, l *lg)) {
		ps = append(ps, schedProg{name, false, own(f)})
	}
	add("sorted map", func(t int, l *lg) {
		m := collection.NewSortedMap()
		for _, i := range []int{2, 1, 3} {
			l.p(m.Put(ck(i+t), i*10+t))
		}
		l.p(m.Get(ck(2+t)), m.Get(ck(9+t)), m.Size())
		l.p(m.Remove(ck(2 + t)))
		for it := m.Iterator(); it.HasNext(); {
			k, v := it.Next()
			l.p(cpos(k, t), v)
		}
	})
	add("sorted set", func(t int, l *lg) {
		m := collection.NewSortedSet()
		for _, i := range []int{5, 4, 6, 4} {
			l.p(cpos(m.Put(ck(i+t)), t))
		}
		l.p(cpos(m.Remove(ck(5+t)), t), m.Exist(ck(4+t)), m.Exist(ck(5+t)), m.Size())
		for it := m.RangeIterator(ck(5+t), nil); it.HasNext(); {
			l.p(cpos(it.Next(), t))
		}
	})
	add("hash map", func(t int, l *lg) {
		m := collection.NewCustomHashMap(2, 0.9, 2)
		for _, i := range []int{2, 1, 3} {
			l.p(m.Put(hb(i+t), i*10+t))
		}
		l.p(m.Remove(hb(1 + t)))
		for i := 0; i < 5; i++ {
			l.p(m.Get(hb(i + t)))
		}
		l.p(m.Size())
	})
	add("hash set", func(t int, l *lg) {
		m := collection.NewHashSet()
		l.p(isNilAny(m.Put(hb(1+t))), isNilAny(m.Put(hb(2+t))), isNilAny(m.Put(hb(1+t))))
		l.p(m.Exist(hb(1+t)), m.Exist(hb(3+t)), isNilAny(m.Remove(hb(1+t))), m.Size())
		for it := m.Iterator(); it.HasNext(); {
			l.p(it.Next().(collection.IHashable).HashUint32(collection.MurmurSeed(7).Hash))
		}
	})
	add("trie", func(t int, l *lg) {
		m := util.NewTrie()
		k := func(s ...string) util.IKey { return schedKey(t, s...) }
		l.p(sval(m.Set(k("a"), util.NewPrimitive([]byte{1, byte(t)}))))
		l.p(sval(m.Set(k("a", "b"), util.NewPrimitive([]byte{2, byte(t)}))))
		l.p(sval(m.Set(k("a"), nil)))
		l.p(sval(m.Get(k("a"))), sval(m.Get(k("a", "b"))))
		for it := m.Iterator(); it.HasNext(); {
			k, v := it.Next()
			l.p(skey(k), sval(v))
		}
	})
	add("trie encoding", func(t int, l *lg) {
		m := util.NewTrie()
		m.Set(schedKey(t, "a"), util.NewPrimitive([]byte{1, byte(t)}))
		m.Set(schedKey(t, "a", "b"), util.NewPrimitive([]byte{2, byte(t)}))
		b := enc(m)
		d, n, err := util.NewMappedTrie(b)
		l.p(b, n, err, sval(d.Get(schedKey(t, "a", "b"))))
	})
	add("trie range", func(t int, l *lg) {
		m := util.NewTrie()
		for _, x := range []string{"a", "b", "c"} {
			m.Set(schedKey(t, x), util.NewPrimitive([]byte(x)))
		}
		for it := m.RangeIterator(schedKey(t, "b"), schedKey(t, "c")); it.HasNext(); {
			k, v := it.Next()
			l.p(skey(k), sval(v))
		}
		for it := m.KeyIterator(schedKey(t, "b")); it.HasNext(); {
			k, v := it.Next()
			l.p(skey(k), sval(v))
		}
	})
	add("key", func(t int, l *lg) {
		k := schedKey(t, "ab", "c")
		b := enc(k)
		m, n, err := util.NewMappedKey(b)
		l.p(b, n, err, skey(m), k.Compare(m), k.Equal(m), m.Compare(schedKey(t, "ab")), k.HashUint32(collection.MurmurSeed(7).Hash), m.HashUint32(collection.MurmurSeed(7).Hash))
		c, err := m.CopyConstruct()
		l.p(skey(c.(util.IKey)), err, skey(m.Copy().(util.IKey)))
	})
	add("value", func(t int, l *lg) {
		v := schedTreeVal(t).build()
		b := enc(v)
		m, n, err := util.NewStandardMappedValue(b)
		l.p(b, n, err, sval(m))
		c, err := m.CopyConstruct()
		l.p(sval(c.(util.IValue)), err)
	})
	add("small value", func(t int, l *lg) {
		v := util.NewPrimitive([]byte{1, 2, byte(t)})
		b := enc(v)
		m, n, err := util.NewStandardMappedValue(b)
		l.p(b, n, err, sval(m))
	})
	add("record", func(t int, l *lg) {
		r := schedRec(t).build()
		b := enc(r)
		m, n, err := util.NewMappedRecord(b)
		l.p(b, n, err, srec(m))
	})
	add("record copy", func(t int, l *lg) {
		r := schedRec(t).build()
		b := enc(r)
		m, _, _ := util.NewMappedRecord(b)
		c, err := m.CopyConstruct()
		l.p(srec(c.(util.IRecord)), err, srec(m.Copy().(util.IRecord)), srec(r.Copy().(util.IRecord)))
	})
	add("record list", func(t int, l *lg) {
		v := list(&rec{key: parts("k" + strconv.Itoa(t)), value: prim(3, byte(t))}, &rec{ts: i64(int64(t))}).build()
		b := enc(v)
		m, n, err := util.NewStandardMappedValue(b)
		l.p(b, n, err, sval(m))
	})
	add("simple value", func(t int, l *lg) {
		m, n, err := util.NewSimpleMappedValue(util.EncodeVarchar([]byte{byte(t), 5, 6}))
		l.p(n, err, m.Value(), m.Size(), m.Buf())
	})
	add("scheme", func(t int, l *lg) {
		b := []byte{0xe0, 1, 'd' + byte(t), 1, 't' + byte(t), 2, 1, 'a' + byte(t), 1, 'b' + byte(t)}
		s := util.NewMappedSchemd(b)
		n, err := s.Decode(nil)
		l.p(n, err, s.Domain(), s.DomainName(), s.Tablet(), s.TabletName(), s.Buckets())
		c := s.Copy().(*util.Scheme)
		l.p(enc(c))
	})
	add("ledger time", func(t int, l *lg) {
		x, err := util.NewConsensusTime(util.NewLedgerTime(uint32(t) * 1000).Buf())
		l.p(x.Buf(), err)
		for _, y := range []uint32{0, 1000, 2000} {
			a, e1 := x.GT(util.NewLedgerTime(y))
			b, e2 := x.LE(util.NewLedgerTime(y))
			l.p(a, e1, b, e2)
		}
	})
	add("raft time", func(t int, l *lg) {
		x, err := util.NewConsensusTime(util.NewRaftTime(uint32(t), 5, 6).Buf())
		l.p(x.Buf(), err)
		for y := uint32(0); y < 3; y++ {
			a, e1 := x.LT(util.NewRaftTime(y, 5, 7))
			b, e2 := x.EQ(util.NewRaftTime(y, 5, 6))
			l.p(a, e1, b, e2)
		}
	})
	add("consensus id", func(t int, l *lg) {
		x, err := util.NewMappedConsensusID(append([]byte{0x88}, fill(96, byte(t))...))
		if err != nil {
			l.p("error")
			return
		}
		l.p(x.Buf(), x.ConsensusMagic(), x.Copy().Buf())
	})
	add("hash table by key", func(t int, l *lg) {
		ks := []util.IKey{schedKey(t, "a"), schedKey(t, "b"), schedKey(t, "c", "d")}
		m := util.MPHBuild(ks, true)
		for _, k := range append(ks, schedKey(t, "no")) {
			l.p(m.Lookup(k))
		}
		b, err := m.Encode()
		l.p(b, err)
	})
	add("hash table by hash", func(t int, l *lg) {
		ks := []util.IKey{schedKey(t, "x"), schedKey(t, "y")}
		m := util.MPHBuild(ks, false)
		b, err := m.Encode()
		l.p(b, err)
		d, n, err := util.NewMPHTable(b)
		l.p(n, err)
		for _, k := range ks {
			l.p(m.Lookup(k))
			l.p(d.Lookup(k))
		}
	})
	add("base58", func(t int, l *lg) {
		s := util.Base58Encode([]byte{0, 1, byte(t), 200})
		l.p(s, util.Base58Decode(s))
	})
	add("varint", func(t int, l *lg) {
		for _, x := range []uint64{5, 300, 1 << 40} {
			b := util.EncodeUvarint64(x + uint64(t))
			v, n, err := util.DecodeUvarint64(b)
			c := util.EncodeVarint64(-int64(x) - int64(t))
			y, m, err2 := util.DecodeVarint64(c)
			l.p(b, v, n, err, c, y, m, err2)
		}
	})
	add("varchar", func(t int, l *lg) {
		b := util.EncodeVarchar([]byte{byte(t), 2, 3})
		v, n, err := util.DecodeVarchar(b)
		l.p(b, v, n, err)
	})
	add("numbers", func(t int, l *lg) {
		x := int64(t)*0x0102030405 + 7
		b := collection.Int64ToByteArray(x)
		c := collection.Int32ToByteArray(int32(x))
		d := collection.Uint32ToByteArray(uint32(x))
		e := collection.BigIntToByteArray(big.NewInt(x))
		l.p(b, c, d, e, collection.ByteArrayToInt64(b), collection.ByteArrayToInt32(c), collection.ByteArrayToUint32(d), collection.ByteArrayToBigInt(e))
		tb := collection.TimeToBytes(collection.Int64ToTime(x))
		y, err := collection.BytesToTime(tb)
		l.p(tb, y.UnixNano(), err)
		l.p(util.SumSHA256(b), util.SumSHA256d(b), util.SumMD5(b), util.AESPad(b))
	})
	add("comparisons", func(t int, l *lg) {
		a := collection.NewComparableSlice([]collection.IComparable{ck(t), collection.NewComparableByteSlice([]byte("x"))})
		b := collection.NewComparableSlice([]collection.IComparable{ck(t), collection.NewComparableByteSlice([]byte{byte(t)})})
		l.p(a.Compare(b), b.Compare(a), a.Compare(a))
		l.p(collection.NewComparableInt32Slice([]int32{1, int32(t)}).Compare(collection.NewComparableInt32Slice([]int32{1, 1})))
		l.p(collection.NewComparableUint64Slice([]uint64{1, uint64(t)}).Compare(collection.NewComparableUint64Slice([]uint64{1})))
		l.p(collection.NewComparableInt8Slice([]int8{int8(t)}).Compare(collection.NewComparableInt8Slice([]int8{-1, 1})))
	})
	add("hash functions", func(t int, l *lg) {
		f := collection.MurmurSeed(uint32(t) + 3).Hash
		l.p(collection.NewHashableByteSlice([]byte{1, 2, byte(t)}).HashUint32(f))
		l.p(collection.NewHashableInt16Slice([]int16{1, int16(t)}).HashUint32(f))
		l.p(collection.NewHashableUint32Slice([]uint32{1, uint32(t)}).HashUint32(f))
		l.p(collection.NewHashableInt64Slice([]int64{1, int64(t)}).HashUint32(f))
		s := collection.NewHashableSlice([]collection.IHashable{hb(1 + t), hb(2)})
		l.p(s.HashUint32(f), s.Equal(collection.NewHashableSlice([]collection.IHashable{hb(1), hb(2)})))
	})
	add("random", func(t int, l *lg) {
		l.p(util.RandUint8(), util.RandInt64(), util.RandUint32Range(uint32(t), 100+uint32(t)), util.RandInt16Range(-5, 5+int16(t)))
	})
	add("signing keys", func(t int, l *lg) {
		k := util.ECDSAGetPrivateKey(be32(big.NewInt(int64(t)*1000 + 12345)))
		p := util.ECDSAGetPublicKey(be32(k.X))
		l.p(k.D, k.X, k.Y, p.X, p.Y)
	})

	shared := func(name string, mk func() func(t int, l *lg)) {
		ps = append(ps, schedProg{name, true, func() func(int) string {
			f := mk()
			return func(tid int) string {
				var l lg
				f(tid, &l)
				return l.String()
			}
		}})
	}
	shared("sorted map", func() func(int, *lg) {
		m := collection.NewSortedMap()
		for i := 1; i <= 4; i++ {
			m.Put(ck(i*2), i)
		}
		return func(t int, l *lg) {
			l.p(m.Get(ck(2+2*t)), m.Get(ck(3)), m.Size())
			for it := m.RangeIterator(ck(3), ck(7)); it.HasNext(); {
				_, v := it.Next()
				l.p(v)
			}
			for it := m.Iterator(); it.HasNext(); {
				_, v := it.Peek()
				_, u := it.Next()
				l.p(v, u)
			}
		}
	})
	shared("hash map", func() func(int, *lg) {
		m := collection.NewCustomHashMap(2, 0.9, 2)
		for i := 1; i <= 4; i++ {
			m.Put(hb(i*2), i)
		}
		return func(t int, l *lg) {
			for i := 0; i < 5; i++ {
				l.p(m.Get(hb(i + 3*t)))
			}
			l.p(m.Size())
		}
	})
	shared("trie", func() func(int, *lg) {
		m := util.NewTrie()
		for i, k := range ks("a", "a/b", "b/c", "c") {
			m.Set(buildKey(k), util.NewPrimitive([]byte{byte(i)}))
		}
		return func(t int, l *lg) {
			l.p(sval(m.Get(util.NewStringKey("a"))), sval(m.Get(util.NewStringKey("q"))))
			for it := m.Iterator(); it.HasNext(); {
				k, v := it.Next()
				l.p(skey(k), sval(v))
			}
			for it := m.RangeIterator(util.NewStringKey("b"), nil); it.HasNext(); {
				k, v := it.Next()
				l.p(skey(k), sval(v))
			}
		}
	})
	shared("mapped trie", func() func(int, *lg) {
		m := util.NewTrie()
		for i, k := range ks("a", "a/b", "c") {
			m.Set(buildKey(k), arr(prim(byte(i)), prim(2)).build())
		}
		d, _, err := util.NewMappedTrie(enc(m))
		if err != nil {
			panic(err)
		}
		return func(t int, l *lg) {
			l.p(sval(d.Get(util.NewStringKey("a"))), sval(d.Get(util.NewStringKey("q"))))
			for it := d.Iterator(); it.HasNext(); {
				k, v := it.Next()
				l.p(skey(k), sval(v))
			}
		}
	})
	mv := func(b []byte) func() func(int, *lg) {
		return func() func(int, *lg) {
			v, _, err := util.NewStandardMappedValue(b)
			if err != nil {
				panic(err)
			}
			return func(t int, l *lg) {
				if t == 0 || !v.IsValueArray() {
					l.p(sval(v))
				} else { // backwards
					for i := int(v.Size()) - 1; i >= 0; i-- {
						e, err := v.ValueAt(uint16(i))
						if err != nil {
							l.p("error")
						} else {
							l.p(sval(e))
						}
					}
				}
				l.p(v.Buf())
			}
		}
	}
	h := func(s string) []byte {
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(err)
		}
		return b
	}
	_ = h
	shared("mapped array", mv(enc(arr(prim(1), arr(prim(2), prim(3)), prim(4)).build())))
	shared("mapped record list", mv(enc(list(&rec{key: parts("a", "b"), value: prim(1)}, &rec{key: parts("c"), value: arr(prim(2))}).build())))
	// elements that cannot be decoded
	shared("mapped array, invalid", mv([]byte{0x41, 3, 4, 0x01, 1, 'x', 0x03}))
	shared("mapped record list, invalid", mv([]byte{0x11, 3, 4, 0x00, 0x00, 0x20, 0x03}))
	shared("mapped record", func() func(int, *lg) {
		r, _, err := util.NewMappedRecord(enc(schedRec(1).build()))
		if err != nil {
			panic(err)
		}
		return func(t int, l *lg) { l.p(srec(r), r.RecordMagic(), r.Buf()) }
	})
	shared("mapped key", func() func(int, *lg) {
		k, _, err := util.NewMappedKey(enc(schedKey(1, "ab", "c")))
		if err != nil {
			panic(err)
		}
		o := schedKey(1, "ab")
		return func(t int, l *lg) {
			l.p(skey(k), k.Compare(o), k.Equal(o), k.HashUint32(collection.MurmurSeed(7).Hash), k.IsEmpty(), k.Buf(), k.ToString())
		}
	})
	shared("key", func() func(int, *lg) {
		k, o := schedKey(1, "ab", "c"), schedKey(1, "ab")
		return func(t int, l *lg) {
			l.p(skey(k), k.Compare(o), k.Equal(o), k.HashUint32(collection.MurmurSeed(7).Hash), k.IsEmpty(), k.ToString())
		}
	})
	shared("constructed value", func() func(int, *lg) {
		v := schedTreeVal(2).build()
		return func(t int, l *lg) { l.p(sval(v)) }
	})
	shared("record", func() func(int, *lg) {
		v := schedRec(2).build()
		return func(t int, l *lg) { l.p(srec(v)) }
	})
	shared("mapped scheme", func() func(int, *lg) {
		s := util.NewMappedSchemd([]byte{0xe0, 1, 'd', 1, 't', 2, 1, 'a', 1, 'b'})
		s.Decode(nil)
		return func(t int, l *lg) {
			l.p(s.Domain(), s.DomainName(), s.Tablet(), s.TabletName(), s.Buckets(), s.BucketAt(t))
		}
	})
	shared("hash table", func() func(int, *lg) {
		ks := []util.IKey{schedKey(0, "a"), schedKey(0, "b"), schedKey(0, "c", "d")}
		m := util.MPHBuild(ks, true)
		return func(t int, l *lg) {
			for i := range append(ks, schedKey(0, "no")) {
				l.p(m.Lookup(append(ks, schedKey(0, "no"))[(i+t)%4]))
			}
		}
	})
	shared("times", func() func(int, *lg) {
		x, y := util.NewRaftTime(1, 2, 3), util.NewRaftTime(1, 2, 4)
		return func(t int, l *lg) {
			a, e1 := x.LT(y)
			b, e2 := y.LT(x)
			l.p(a, e1, b, e2, x.Buf())
		}
	})
	return
}

// one pair of programs under one schedule
type schedPair struct {
	name string
	mk   func() [2]func() string
}

func schedPairs() (r []schedPair) {
	ps := schedPrograms()
	for i, a := range ps {
		a := a
		if a.shared {
			r = append(r, schedPair{"shared " + a.name, func() [2]func() string {
				f := a.make()
				return [2]func() string{func() string { return f(0) }, func() string { return f(1) }}
			}})
			continue
		}
		for _, b := range ps[i:] {
			b := b
			if b.shared {
				continue
			}
			r = append(r, schedPair{a.name + " / " + b.name, func() [2]func() string {
				f, g := a.make(), b.make()
				return [2]func() string{func() string { return f(0) }, func() string { return g(1) }}
			}})
		}
	}
	return
}

func init() {
	register("C26", checkInfo{level: "model_checking",
		rule:  "a state is a point between two statements of the library in both goroutines; for every pair of programs on objects of their own and for every pair of readers of one object, all schedules with one preemption, from either goroutine, at every statement are run on the real code, and all schedules with two preemptions when there are at most a bounded number of them; for every pair and both orders no two conflicting accesses are unordered (race detector, turns handed over without synchronisation); each goroutine must give the results it gives alone",
		assum: []string{"switches happen between statements of the library, not inside one or inside the standard library; what happens inside one is judged by happens-before", "at most two preemptions and two goroutines", "random bytes are the same for every request"}},
		runSchedC26)
}

func schedInit() {
	crand.Reader = constReader{}
	util.VFHook, collection.VFHook = schedHook, schedHook
}

// raceCases: what the statement-level schedules cannot show, because it happens inside one statement (two operations
// of one built-in map, two writes of one word): in the build with the race detector (see race_on.go), for every pair
// and both orders, no two conflicting accesses may be unordered.  Readers of one object that nobody modifies may
// decode its parts twice, so only accesses to built-in maps count there.
func raceCases(w *W, pairs []schedPair) {
	bin := filepath.Join(verifDir(), ".cache/bin/vf-race")
	if _, err := os.Stat(bin); err != nil {
		if w.Shard == 0 {
			w.Note("no_race_detector", 1)
		}
		return
	}
	for pi := range pairs {
		for first := 0; first < 2; first++ {
			pi, first := pi, first
			w.CaseN("unordered accesses", pi*2+first, func() string { return fmt.Sprintf("%s: %d first", pairs[pi].name, first) }, func() error {
				cmd := exec.Command(bin, "racepair", strconv.Itoa(pi), strconv.Itoa(first))
				cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 log_path=stderr")
				b, err := cmd.CombinedOutput()
				out := string(b)
				if err != nil || !strings.Contains(out, "ran true races ") {
					w.Note("race_runs_given_up", 1)
					return nil
				}
				w.traces++
				w.states++
				if strings.Contains(out, "ran true races 0 ") {
					return nil
				}
				if strings.HasPrefix(pairs[pi].name, "shared ") && !strings.Contains(out, "runtime.map") && !strings.Contains(out, "internal/runtime/maps") {
					return nil
				}
				return bad("unordered", "accesses of two goroutines to the same memory that nothing orders:\n%s", trunc(out, 3000))
			})
		}
	}
}

func runSchedC26(w *W) {
	schedInit()
	w.limit.Store(60)
	pairs := schedPairs()
	raceCases(w, pairs)
	lim2, lim3 := 120000, 0
	if !w.Quick() {
		lim2, lim3 = 4000000, 3000000
	}
	stalls := 0
	for pi := range pairs {
		p := pairs[pi]
		// alone: one after the other, on fresh objects each
		var alone [2]string
		var n [2]int
		for i := 0; i < 2; i++ {
			f := p.mk()
			r := runSched(i, nil, [2]func() string{f[0], f[1]})
			_ = r
			g := p.mk()
			only := [2]func() string{func() string { return "" }, func() string { return "" }}
			only[i] = g[i]
			r = runSched(i, nil, only)
			alone[i], n[i] = r.out[i], r.total[i]
			if strings.HasPrefix(r.out[i], "panic") {
				w.Exec(p.name, func() string { return "alone" }, func() error { return bad("alone", "%s", r.out[i]) })
			}
		}
		run := func(first int, plan []int) error {
			f := p.mk()
			r := runSched(first, plan, f)
			w.transitions += int64(r.used)
			w.traces++
			if r.stall {
				stalls++
				w.Note("schedules_given_up", 1)
				w.exhaustive = false
			}
			for i := 0; i < 2; i++ {
				if r.out[i] != alone[i] {
					return bad("interference", "goroutine %d, schedule: %d starts, switches after %v statements: gives\n%s\nalone it gives\n%s", i, first, plan, trunc(r.out[i], 600), trunc(alone[i], 600))
				}
			}
			return nil
		}
		if w.Shard == 0 {
			w.Note("statements", int64(n[0]+n[1]))
			w.Note("pairs", 1)
		}
		w.Sample("%s: %d and %d statements", p.name, n[0], n[1])
		two := n[0]*n[1] <= lim2
		if !two && w.Shard == 0 {
			w.Note("pairs_with_one_preemption_only", 1)
		}
		for first := 0; first < 2; first++ {
			for k := 0; k <= n[first]; k++ {
				first, k := first, k
				w.CaseN(p.name, k*2+first+pi, func() string { return fmt.Sprintf("%d %d", first, k) }, func() error {
					if stalls > 10 {
						return nil
					}
					w.states++
					if err := run(first, []int{k}); err != nil {
						return err
					}
					if !two {
						return nil
					}
					for j := 0; j <= n[1-first]; j++ {
						w.states++
						if err := run(first, []int{k, j}); err != nil {
							return err
						}
					}
					if n[0]*n[1]*(n[0]+n[1])/2 <= lim3 {
						for j := 0; j <= n[1-first]; j++ {
							for i := 1; i <= n[first]-k; i++ {
								w.states++
								if err := run(first, []int{k, j, i}); err != nil {
									return err
								}
							}
						}
					}
					return nil
				})
			}
		}
		if w.Expired() {
			return
		}
	}
}
