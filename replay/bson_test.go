package dxsvalue_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
)

// bsonEnc: the BSON document of a model object or array, from the specification.
func bsonEnc(m *mv) []byte {
	b := []byte{0, 0, 0, 0}
	for i, c := range m.kids {
		key := strconv.Itoa(i)
		if m.k == dx.VT_Object {
			key = m.keys[i]
		}
		t := byte(0)
		var p []byte
		switch c.k {
		case dx.VT_Object:
			t, p = 3, bsonEnc(c)
		case dx.VT_Array:
			t, p = 4, bsonEnc(c)
		case dx.VT_String:
			t = 2
			p = binary.LittleEndian.AppendUint32(p, uint32(len(c.s)+1))
			p = append(append(p, c.s...), 0)
		case dx.VT_Int:
			if c.i >= math.MinInt32 && c.i <= math.MaxInt32 {
				t, p = 0x10, binary.LittleEndian.AppendUint32(p, uint32(int32(c.i)))
			} else {
				t, p = 0x12, binary.LittleEndian.AppendUint64(p, uint64(c.i))
			}
		case dx.VT_Float, dx.VT_Double:
			t, p = 1, binary.LittleEndian.AppendUint64(p, math.Float64bits(c.f))
		case dx.VT_True:
			t, p = 8, []byte{1}
		case dx.VT_False:
			t, p = 8, []byte{0}
		case dx.VT_NULL:
			t = 10
		case dx.VT_Binary:
			t = 5
			p = binary.LittleEndian.AppendUint32(p, uint32(len(c.bin)))
			p = append(append(p, 0), c.bin...)
		default:
			panic("bsonEnc kind")
		}
		b = append(b, t)
		b = append(append(b, key...), 0)
		b = append(b, p...)
	}
	b = append(b, 0)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

func widen(m *mv) *mv {
	m = clone(m)
	var f func(*mv)
	f = func(x *mv) {
		if x.k == dx.VT_Float {
			x.k = dx.VT_Double
		}
		for _, c := range x.kids {
			f(c)
		}
	}
	f(m)
	return m
}

func bsonRT(m *mv, cached, share bool) {
	v := make1(m, cached)
	b, err := dx.Value2Bson(v, nil)
	if err != nil {
		fail("encoding failed: %v", err)
	}
	checkBytes("BSON encoding", b, bsonEnc(m))
	checkBytes("ToBson", v.ToBson(nil), b)
	same("the document after encoding", snap(v), m)
	if m.k == dx.VT_Array {
		// an array is only embedded in a document
		w := &mv{k: dx.VT_Object, keys: []string{"a"}, kids: []*mv{m}}
		bsonRT(w, cached, share)
		return
	}
	want := widen(m)
	back, err := dx.NewValueFromBson(b, cached, share)
	if err != nil {
		fail("decoding the encoding failed: %v", err)
	}
	same("decoded document", snap(back), want)
	for i := 0; i < 2; i++ {
		var t *dx.DxValue
		if i == 0 {
			t = dx.NewValue(dx.VT_Object)
			t.SetKeyString("old", "x")
		} else {
			t = dx.NewCacheValue(dx.VT_Int)
		}
		if err := t.LoadFromBson(b, share); err != nil {
			fail("loading the encoding failed: %v", err)
		}
		same("loaded document", snap(t), want)
	}
}

func TestVerif_C02(t *testing.T) {
	q := start(t, "C02")
	defer q.finish()
	o := *allOpt
	o.ext = false
	o.key = func(r2 randT) string {
		return string(bytes.ReplaceAll([]byte(anyStr(r2)), []byte{0}, []byte{'z'}))
	}
	for _, m := range bigModels() {
		if m.k == dx.VT_ExBinary {
			continue
		}
		m := m
		if m.k == dx.VT_Object || m.k == dx.VT_Array {
			q.try(m.String, func() { bsonRT(m, false, false) })
			continue
		}
		d := &mv{k: dx.VT_Object, keys: []string{"v", "w", ""}, kids: []*mv{m, {k: dx.VT_Array, kids: []*mv{m, m}}, m}}
		q.try(d.String, func() { bsonRT(d, false, false) })
		q.try(d.String, func() { bsonRT(d, true, true) })
	}
	for n := 0; n < 200 || q.left(); n++ {
		cnt := q.r.Intn(6)
		if n%31 == 0 {
			cnt = 120
		}
		m := genObj(q.r, &o, 4, cnt)
		if n%7 == 0 {
			a := &mv{k: dx.VT_Array}
			for i := 0; i < cnt; i++ {
				a.kids = append(a.kids, genTree(q.r, &o, 2))
			}
			m = a
		}
		cached, share := q.r.Intn(2) == 0, q.r.Intn(2) == 0
		q.try(func() string { return fmt.Sprintf("cached=%v share=%v %s", cached, share, m) }, func() { bsonRT(m, cached, share) })
	}
}

// bsonScan: whether every declared length fits and every type is known; 0 fine, 1 a length exceeds the data, 2 other.
func bsonScan(b []byte) int {
	if len(b) < 5 {
		return 1
	}
	n := int(binary.LittleEndian.Uint32(b))
	if n > len(b) {
		return 1
	}
	if n < 5 || b[n-1] != 0 {
		return 2
	}
	b = b[4 : n-1]
	for len(b) > 0 {
		t := b[0]
		e := bytes.IndexByte(b[1:], 0)
		if e < 0 {
			return 2
		}
		b = b[e+2:]
		w := 0
		switch t {
		case 1, 9, 0x11, 0x12:
			w = 8
		case 2:
			if len(b) < 4 {
				return 1
			}
			l := int(binary.LittleEndian.Uint32(b))
			if l > len(b)-4 {
				return 1
			}
			if l < 1 || b[3+l] != 0 {
				return 2
			}
			w = 4 + l
		case 3, 4:
			if s := bsonScan(b); s != 0 {
				return s
			}
			w = int(binary.LittleEndian.Uint32(b))
		case 5:
			if len(b) < 5 {
				return 1
			}
			l := int(binary.LittleEndian.Uint32(b))
			if l > len(b)-5 {
				return 1
			}
			w = 5 + l
		case 6, 10, 0xff, 0x7f:
		case 7:
			w = 12
		case 8:
			w = 1
		case 0x10:
			w = 4
		case 0x13:
			w = 16
		default:
			return 2
		}
		if w > len(b) {
			return 1
		}
		b = b[w:]
	}
	return 0
}

func bsonTotal(b []byte) {
	st := bsonScan(b)
	for i := 0; i < 4; i++ {
		v, err := dx.NewValueFromBson(b, i&1 == 0, i&2 == 0)
		if (v == nil) == (err == nil) {
			fail("decoding gave value %v with error %v", v, err)
		}
		if err != nil {
			_ = err.Error()
		} else {
			snap(v)
		}
		if st == 1 && err == nil {
			fail("a declared length exceeds the data and no error is given: %s", snap(v))
		}
		if err == nil {
			// bytes beyond the document's declared length have no influence
			n := int(binary.LittleEndian.Uint32(b))
			if n < len(b) {
				v2, err2 := dx.NewValueFromBson(b[:n:n], i&1 == 0, i&2 == 0)
				if err2 != nil {
					fail("the document alone does not decode (%v), with bytes after it it does", err2)
				}
				same("decoded with bytes after the document", snap(v), snap(v2))
			}
		}
	}
	for i := 0; i < 3; i++ {
		var t *dx.DxValue
		switch i {
		case 0:
			t = dx.NewValue(dx.VT_Object)
		case 1:
			t = dx.NewCacheValue(dx.VT_Array)
			t.SetIndexInt(0, 3)
		case 2:
			t = dx.NewValue(dx.VT_String)
		}
		err := t.LoadFromBson(b, i&1 == 0)
		if err == nil {
			snap(t)
		}
		if st == 1 && err == nil && len(b) > 0 {
			fail("a declared length exceeds the data and loading gives no error: %s", snap(t))
		}
	}
}

func TestVerif_C04(t *testing.T) {
	q := start(t, "C04")
	defer q.finish()
	one := func(b []byte) {
		e := make([]byte, len(b))
		copy(e, b)
		e = e[:len(e):len(e)]
		q.try(hexOf("bytes ", e), func() { bsonTotal(e) })
	}
	doc := func(body []byte, d int) []byte {
		b := append([]byte{0, 0, 0, 0}, body...)
		b = append(b, 0)
		binary.LittleEndian.PutUint32(b, uint32(len(b)+d))
		return b
	}
	for c := 0; c < 256; c++ {
		for n := 0; n < 22; n++ {
			for _, x := range []byte{0, 1, 4, 5, 0xff} {
				p := bytes.Repeat([]byte{0}, n)
				if n > 0 {
					p[0] = x
				}
				body := append([]byte{byte(c), 'k', 0}, p...)
				one(doc(body, 0))
				if n < 8 {
					one(doc(body, 1))
					one(doc(body, -1))
					one(doc(append([]byte{3, 'd', 0}, doc(body, 0)...), 0))
					one(doc(append([]byte{3, 'd', 0}, doc(body, 1)...), 0))
					one(doc(append([]byte{4, 'd', 0}, doc(append([]byte{byte(c), '0', 0}, p...), 0)...), 0))
					one(doc(append([]byte{4, 'd', 0}, doc(append([]byte{byte(c), '0', 0}, p...), 2)...), 0))
				}
			}
		}
	}
	for n := 0; n < 300; n++ {
		for _, h := range [][]byte{{2, 'k', 0}, {5, 'k', 0}} {
			for d := -3; d < 3; d++ {
				p := binary.LittleEndian.AppendUint32(append([]byte{}, h...), uint32(n+d))
				if h[0] == 5 {
					p = append(p, byte(n%4))
				}
				one(doc(append(p, bytes.Repeat([]byte{0}, n)...), 0))
			}
		}
		if n > 40 {
			n += 50
		}
	}
	o := *allOpt
	o.ext = false
	o.key = plainStr
	heads := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x10, 0x11, 0x12, 0x13, 0, 0, 0, 0, 5, 255, 127}
	for q.left() {
		switch q.r.Intn(4) {
		case 0:
			one(doc(junk(q.r, 20, heads), q.r.Intn(3)-1))
		case 1:
			b := bsonEnc(genObj(q.r, &o, 3, q.r.Intn(5)))
			one(append(b, junk(q.r, 5, heads)...))
		case 2:
			b := bsonEnc(genObj(q.r, &o, 3, q.r.Intn(5)))
			m := mutate(q.r, b)
			if len(m) >= 4 && q.r.Intn(2) == 0 {
				binary.LittleEndian.PutUint32(m, uint32(len(m)))
			}
			one(m)
		default:
			b := bsonEnc(genObj(q.r, &o, 2, 1+q.r.Intn(3)))
			one(b[:q.r.Intn(len(b))])
		}
	}
}
