package dxsvalue_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
)

// mpEnc: the MessagePack encoding of a model value, from the specification.
func mpEnc(m *mv) []byte {
	var b []byte
	be := func(n uint64, w int) {
		for i := w - 1; i >= 0; i-- {
			b = append(b, byte(n>>uint(8*i)))
		}
	}
	str := func(s string) {
		n := len(s)
		switch {
		case n < 32:
			b = append(b, 0xa0|byte(n))
		case n < 256:
			b = append(b, 0xd9, byte(n))
		case n < 65536:
			b = append(b, 0xda)
			be(uint64(n), 2)
		default:
			b = append(b, 0xdb)
			be(uint64(n), 4)
		}
		b = append(b, s...)
	}
	switch m.k {
	case dx.VT_NULL:
		b = append(b, 0xc0)
	case dx.VT_True:
		b = append(b, 0xc3)
	case dx.VT_False:
		b = append(b, 0xc2)
	case dx.VT_Int:
		i := m.i
		switch {
		case i >= 0 && i < 128, i < 0 && i >= -32:
			b = append(b, byte(i))
		case i >= 0 && i < 256:
			b = append(b, 0xcc, byte(i))
		case i >= 0 && i < 65536:
			b = append(b, 0xcd)
			be(uint64(i), 2)
		case i >= 0 && i < 1<<32:
			b = append(b, 0xce)
			be(uint64(i), 4)
		case i >= 0:
			b = append(b, 0xcf)
			be(uint64(i), 8)
		case i >= -128:
			b = append(b, 0xd0, byte(i))
		case i >= -32768:
			b = append(b, 0xd1)
			be(uint64(i), 2)
		case i >= -1<<31:
			b = append(b, 0xd2)
			be(uint64(i), 4)
		default:
			b = append(b, 0xd3)
			be(uint64(i), 8)
		}
	case dx.VT_Float:
		b = append(b, 0xca)
		be(uint64(math.Float32bits(float32(m.f))), 4)
	case dx.VT_Double:
		b = append(b, 0xcb)
		be(math.Float64bits(m.f), 8)
	case dx.VT_String:
		str(m.s)
	case dx.VT_Binary:
		n := len(m.bin)
		switch {
		case n < 256:
			b = append(b, 0xc4, byte(n))
		case n < 65536:
			b = append(b, 0xc5)
			be(uint64(n), 2)
		default:
			b = append(b, 0xc6)
			be(uint64(n), 4)
		}
		b = append(b, m.bin...)
	case dx.VT_ExBinary:
		n := len(m.bin)
		switch n {
		case 1:
			b = append(b, 0xd4)
		case 2:
			b = append(b, 0xd5)
		case 4:
			b = append(b, 0xd6)
		case 8:
			b = append(b, 0xd7)
		case 16:
			b = append(b, 0xd8)
		default:
			switch {
			case n < 256:
				b = append(b, 0xc7, byte(n))
			case n < 65536:
				b = append(b, 0xc8)
				be(uint64(n), 2)
			default:
				b = append(b, 0xc9)
				be(uint64(n), 4)
			}
		}
		b = append(b, m.ext)
		b = append(b, m.bin...)
	case dx.VT_Array:
		n := len(m.kids)
		switch {
		case n < 16:
			b = append(b, 0x90|byte(n))
		case n < 65536:
			b = append(b, 0xdc)
			be(uint64(n), 2)
		default:
			b = append(b, 0xdd)
			be(uint64(n), 4)
		}
		for _, c := range m.kids {
			b = append(b, mpEnc(c)...)
		}
	case dx.VT_Object:
		n := len(m.kids)
		switch {
		case n < 16:
			b = append(b, 0x80|byte(n))
		case n < 65536:
			b = append(b, 0xde)
			be(uint64(n), 2)
		default:
			b = append(b, 0xdf)
			be(uint64(n), 4)
		}
		for i, c := range m.kids {
			str(m.keys[i])
			b = append(b, mpEnc(c)...)
		}
	default:
		panic("mpEnc kind")
	}
	return b
}

func checkBytes(what string, got, want []byte) {
	if bytes.Equal(got, want) {
		return
	}
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	cut := func(b []byte) string {
		lo, hi := n-8, n+16
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%x", b[lo:hi])
	}
	fail("%s: %d bytes against %d expected, first difference at %d: ..%s.. against ..%s..", what, len(got), len(want), n, cut(got), cut(want))
}

func msgpackRT(m *mv, cached, share bool) {
	v := make1(m, cached)
	same("the value before encoding", snap(v), m)
	b := dx.Value2MsgPack(v, nil)
	checkBytes("MessagePack encoding", b, mpEnc(m))
	checkBytes("ToMsgPack", v.ToMsgPack(nil), b)
	same("the value after encoding", snap(v), m)
	back, err := dx.NewValueFromMsgPack(b, cached, share)
	if err != nil {
		fail("decoding the encoding failed: %v (bytes %x)", err, short(string(b)))
	}
	same("decoded value", snap(back), m)
	// exactly those bytes: inside a longer input the rest is left alone
	arr := append([]byte{0x92}, b...)
	arr = append(arr, 0x07)
	two, err := dx.NewValueFromMsgPack(arr, cached, share)
	if err != nil || two == nil || two.Count() != 2 {
		fail("the encoding followed by another value does not decode: %v", err)
	}
	same("decoded value inside an array", snap(two.ValueByIndex(0)), m)
	if x := two.ValueByIndex(1); x == nil || x.DataType != dx.VT_Int || x.Int() != 7 {
		fail("the value after the encoding is lost: decoding consumed more or fewer bytes than were written")
	}
	// into an existing value
	t := dx.NewValue(dx.VT_Array)
	t.SetIndexString(0, "old")
	if err := t.LoadFromMsgPack(b, share); err != nil {
		fail("loading the encoding failed: %v", err)
	}
	same("loaded value", snap(t), m)
}

func bigModels() []*mv {
	var out []*mv
	for _, n := range []int{0, 1, 15, 16, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537} {
		s := strings.Repeat("x", n)
		out = append(out, &mv{k: dx.VT_String, s: s}, &mv{k: dx.VT_Binary, bin: []byte(s)}, &mv{k: dx.VT_ExBinary, bin: []byte(s), ext: 5})
		out = append(out, &mv{k: dx.VT_Object, keys: []string{s}, kids: []*mv{{k: dx.VT_Int, i: 1}}})
		a := &mv{k: dx.VT_Array}
		for i := 0; i < n; i++ {
			a.kids = append(a.kids, &mv{k: dx.VT_Int, i: int64(i % 3)})
		}
		out = append(out, a)
		if n < 3000 {
			o := &mv{k: dx.VT_Object}
			for i := 0; i < n; i++ {
				o.keys = append(o.keys, fmt.Sprintf("k%d", i))
				o.kids = append(o.kids, &mv{k: dx.VT_Int, i: int64(i % 3)})
			}
			out = append(out, o)
		}
	}
	for n := 0; n < 40; n++ {
		out = append(out, &mv{k: dx.VT_ExBinary, bin: bytes.Repeat([]byte{7}, n), ext: byte(n * 6)})
	}
	for _, i := range intEdges {
		out = append(out, &mv{k: dx.VT_Int, i: i})
	}
	for i := int64(-300); i < 300; i++ {
		out = append(out, &mv{k: dx.VT_Int, i: i})
	}
	for _, f := range f64Edges {
		out = append(out, &mv{k: dx.VT_Double, f: f}, &mv{k: dx.VT_Float, f: float64(float32(f))})
	}
	for _, k := range constKinds[:3] {
		out = append(out, &mv{k: k})
	}
	return out
}

func TestVerif_C01(t *testing.T) {
	q := start(t, "C01")
	defer q.finish()
	for _, m := range bigModels() {
		m := m
		q.try(m.String, func() { msgpackRT(m, false, false) })
		q.try(m.String, func() { msgpackRT(m, true, true) })
	}
	dateCases(q)
	o := *allOpt
	o.key = anyStr
	for n := 0; n < 200 || q.left(); n++ {
		m := genTree(q.r, &o, 4)
		cached, share := q.r.Intn(2) == 0, q.r.Intn(2) == 0
		q.try(func() string { return fmt.Sprintf("cached=%v share=%v %s", cached, share, m) }, func() { msgpackRT(m, cached, share) })
		if n%50 == 0 {
			dateCases(q)
		}
		if n%400 == 7 && q.thorough {
			a := &mv{k: dx.VT_Object}
			for i := 0; i < 65536; i++ {
				a.keys = append(a.keys, fmt.Sprint(i))
				a.kids = append(a.kids, &mv{k: dx.VT_True})
			}
			_ = a
		}
	}
}

// dateCases: a date-time is written as the timestamp of its instant.
func dateCases(q *run) {
	for i := 0; i < 30; i++ {
		d := []float64{25569, 25570, 43831.5, 0, 2, 44000.123456, 100000, 230000, 224411, 1000.25, -5, 25568.75}[i%12]
		if i >= 12 {
			d = q.r.Float64() * 300000
		}
		q.try(func() string { return fmt.Sprintf("datetime %v", d) }, func() {
			v := dx.NewValue(dx.VT_DateTime)
			v.SetDouble(d)
			t := v.GoTime()
			got := dx.Value2MsgPack(v, nil)
			secs, ns := uint64(t.Unix()), uint64(t.Nanosecond())
			var want []byte
			if secs>>34 == 0 {
				if ns == 0 && secs>>32 == 0 {
					want = binary.BigEndian.AppendUint32([]byte{0xd6, 0xff}, uint32(secs))
				} else {
					want = binary.BigEndian.AppendUint64([]byte{0xd7, 0xff}, ns<<34|secs)
				}
			} else {
				want = binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32([]byte{0xc7, 12, 0xff}, uint32(ns)), secs)
			}
			checkBytes("timestamp", got, want)
			back, err := dx.NewValueFromMsgPack(got, false, false)
			if err != nil || back.DataType != dx.VT_DateTime {
				fail("the timestamp does not decode to a date-time: %v", err)
			}
			if x := back.GoTime().Sub(t); secs>>34 == 0 && (x > 2000000 || x < -2000000) {
				fail("the decoded date-time differs by %v", x)
			}
		})
	}
}

// mpScan: 0 well formed, 1 a header promises more than there is, 2 otherwise invalid. n: bytes used.
func mpScan(b []byte) (n int, st int) {
	if len(b) == 0 {
		return 0, 1
	}
	c := b[0]
	need := func(w int) (int, bool) {
		if len(b) < 1+w {
			return 0, false
		}
		x := 0
		for i := 0; i < w; i++ {
			x = x<<8 | int(b[1+i])
		}
		return x, true
	}
	raw := func(w, fixed, extra int) (int, int) {
		x, ok := fixed, true
		if w > 0 {
			x, ok = need(w)
		}
		if !ok || len(b) < 1+w+extra+x {
			return 0, 1
		}
		return 1 + w + extra + x, 0
	}
	seq := func(w, fixed, per int) (int, int) {
		x, ok := fixed, true
		if w > 0 {
			x, ok = need(w)
		}
		if !ok {
			return 0, 1
		}
		p := 1 + w
		for i := 0; i < x*per; i++ {
			if per == 2 && i%2 == 0 && p < len(b) {
				k := b[p]
				if !(k >= 0xa0 && k <= 0xbf || k >= 0xd9 && k <= 0xdb) {
					return p, 2
				}
			}
			m, s := mpScan(b[p:])
			if s != 0 {
				return p, s
			}
			p += m
		}
		return p, 0
	}
	switch {
	case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
		return 1, 0
	case c < 0x90:
		return seq(0, int(c&15), 2)
	case c < 0xa0:
		return seq(0, int(c&15), 1)
	case c < 0xc0:
		return raw(0, int(c&31), 0)
	case c == 0xc1:
		return 1, 2
	case c >= 0xc4 && c <= 0xc6:
		return raw(1<<(c-0xc4), 0, 0)
	case c >= 0xc7 && c <= 0xc9:
		return raw(1<<(c-0xc7), 0, 1)
	case c == 0xca:
		return raw(0, 4, 0)
	case c == 0xcb:
		return raw(0, 8, 0)
	case c >= 0xcc && c <= 0xcf:
		return raw(0, 1<<(c-0xcc), 0)
	case c >= 0xd0 && c <= 0xd3:
		return raw(0, 1<<(c-0xd0), 0)
	case c >= 0xd4 && c <= 0xd8:
		return raw(0, 1<<(c-0xd4), 1)
	case c >= 0xd9 && c <= 0xdb:
		return raw(1<<(c-0xd9), 0, 0)
	case c == 0xdc:
		return seq(2, 0, 1)
	case c == 0xdd:
		return seq(4, 0, 1)
	case c == 0xde:
		return seq(2, 0, 2)
	}
	return seq(4, 0, 2)
}

func mpTotal(b []byte) {
	_, st := mpScan(b)
	for i := 0; i < 4; i++ {
		v, err := dx.NewValueFromMsgPack(b, i&1 == 0, i&2 == 0)
		if (v == nil) == (err == nil) {
			fail("decoding gave value %v with error %v", v, err)
		}
		if err != nil {
			_ = err.Error()
		} else {
			snap(v)
		}
		if st == 1 && err == nil {
			fail("the data is cut short and no error is given (useCache=%v share=%v): %s", i&1 == 0, i&2 == 0, snap(v))
		}
	}
	for i := 0; i < 4; i++ {
		var t *dx.DxValue
		switch i {
		case 0:
			t = dx.NewValue(dx.VT_Object)
		case 1:
			t = dx.NewCacheValue(dx.VT_Array)
		case 2:
			t = dx.NewValue(dx.VT_Int)
		case 3:
			t = dx.NewCacheValue(dx.VT_Object)
			t.SetKey("a", dx.VT_Object).SetKeyInt("b", 1)
		}
		err := t.LoadFromMsgPack(b, i&1 == 0)
		if err == nil {
			snap(t)
		}
		if st == 1 && err == nil && len(b) > 0 {
			fail("the data is cut short and loading gives no error: %s", snap(t))
		}
	}
}

func junk(r *rand.Rand, n int, heads []byte) []byte {
	b := make([]byte, r.Intn(n+1))
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = heads[r.Intn(len(heads))]
		case 2:
			b[i] = byte(r.Intn(20))
		default:
			b[i] = plain[r.Intn(len(plain))]
		}
	}
	return b
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.Intn(3); k >= 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = b[:i]
		case 3:
			b[i] += byte(r.Intn(3) - 1)
		case 4:
			b = append(b[:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 5:
			b[i] ^= 1 << uint(r.Intn(8))
		}
	}
	return b
}

func TestVerif_C03(t *testing.T) {
	q := start(t, "C03")
	defer q.finish()
	one := func(b []byte) {
		// an exact-capacity copy: reading past the end cannot go unnoticed
		e := make([]byte, len(b))
		copy(e, b)
		e = e[:len(e):len(e)]
		q.try(hexOf("bytes ", e), func() { mpTotal(e) })
	}
	for c := 0; c < 256; c++ {
		for n := 0; n < 20; n++ {
			b := append([]byte{byte(c)}, bytes.Repeat([]byte{0}, n)...)
			one(b)
			for _, x := range []byte{1, 3, 12, 0xff} {
				for p := 1; p < len(b) && p < 6; p++ {
					d := append([]byte{}, b...)
					d[p] = x
					one(d)
				}
			}
			// inside containers
			one(append([]byte{0x91}, b...))
			one(append([]byte{0x81, 0xa1, 'k'}, b...))
			one(append([]byte{0x92, 0x01}, b...))
		}
	}
	for _, n := range []int{0, 1, 255, 256, 300, 65535, 65536} {
		for _, h := range [][]byte{{0xc4, byte(n)}, {0xc5, byte(n >> 8), byte(n)}, {0xc6, 0, byte(n >> 16), byte(n >> 8), byte(n)}, {0xc7, byte(n)}, {0xc8, byte(n >> 8), byte(n)}, {0xc9, 0, byte(n >> 16), byte(n >> 8), byte(n)}, {0xd9, byte(n)}, {0xda, byte(n >> 8), byte(n)}, {0xdb, 0, byte(n >> 16), byte(n >> 8), byte(n)}, {0xdc, byte(n >> 8), byte(n)}, {0xdd, 0, byte(n >> 16), byte(n >> 8), byte(n)}} {
			for _, d := range []int{-2, -1, 0, 1} {
				if n+d >= 0 {
					one(append(append([]byte{}, h...), bytes.Repeat([]byte{0xff}, n+d)...))
				}
			}
		}
	}
	heads := []byte{0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x93, 0xa0, 0xa1, 0xa3, 0xbf, 0xc0, 0xc1, 0xc2, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xff, 0xe0}
	o := *allOpt
	o.key = anyStr
	for q.left() {
		if q.r.Intn(2) == 0 {
			one(junk(q.r, 24, heads))
			continue
		}
		b := mpEnc(genTree(q.r, &o, 3))
		if q.r.Intn(3) == 0 && len(b) > 0 {
			one(b[:q.r.Intn(len(b))])
		} else {
			one(mutate(q.r, b))
		}
	}
}
