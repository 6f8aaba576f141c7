package dxsvalue_test

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
)

func closeTo(a, b float64) bool {
	if a == b {
		return true
	}
	x, y := int64(math.Float64bits(math.Abs(a))), int64(math.Float64bits(math.Abs(b)))
	d := x - y
	return (a < 0) == (b < 0) && d <= 8 && d >= -8
}

// numDiff is diff, with floats compared as numbers (a decoded integer stands for the same float).
func jsonDiff(got, want *mv, path string) string {
	if got == nil || want == nil {
		return diff(got, want, path)
	}
	if want.k == dx.VT_Float || want.k == dx.VT_Double {
		var f float64
		switch got.k {
		case dx.VT_Int:
			f = float64(got.i)
		case dx.VT_Double, dx.VT_Float:
			f = got.f
		default:
			return fmt.Sprintf("%s: %s against the number %v", path, got, want.f)
		}
		if !closeTo(f, want.f) {
			return fmt.Sprintf("%s: %v against %v", path, f, want.f)
		}
		return ""
	}
	if (want.k == dx.VT_Object || want.k == dx.VT_Array) && got.k == want.k && len(got.kids) == len(want.kids) {
		for i := range want.kids {
			p := fmt.Sprintf("%s[%d]", path, i)
			if want.k == dx.VT_Object {
				if got.keys[i] != want.keys[i] {
					return fmt.Sprintf("%s: key %d is %q against %q", path, i, got.keys[i], want.keys[i])
				}
				p = path + "/" + short(want.keys[i])
			}
			if d := jsonDiff(got.kids[i], want.kids[i], p); d != "" {
				return d
			}
		}
		return ""
	}
	return diff(got, want, path)
}

func jsonSame(what string, got, want *mv) {
	if d := jsonDiff(got, want, ""); d != "" {
		fail("%s: %s\n got  %s\n want %s", what, d, got, want)
	}
}

func jsonRT(m *mv, cached, share bool, style dx.JsonEscapeStyle, form bool) {
	v := make1(m, cached)
	enc := func(v *dx.DxValue) []byte {
		if form {
			return dx.Value2FormatJson(v, style, false, nil)
		}
		return dx.Value2Json(v, style, false, nil)
	}
	b := enc(v)
	if x := v.ToJson(form, style, false, nil); !bytes.Equal(x, b) {
		fail("ToJson gives %q, the function %q", x, b)
	}
	same("the value after encoding", snap(v), m)
	back, err := dx.NewValueFromJson(append([]byte{}, b...), cached, share)
	if err != nil {
		fail("the text does not decode: %v\n%s", err, short(string(b)))
	}
	// what was just decoded, names and strings still in their escaped form, encodes to the same value
	again, err := dx.NewValueFromJson(enc(back), !cached, false)
	if err != nil {
		fail("the text of the decoded value does not decode: %v\n%s", err, short(string(enc(back))))
	}
	jsonSame("decoded value", snap(back), m)
	jsonSame("value decoded twice", snap(again), m)
	t := dx.NewValue(dx.VT_Array)
	t.SetIndexString(0, "old")
	if err := t.LoadFromJson(b, share); err != nil {
		fail("loading the text failed: %v\n%s", err, short(string(b)))
	}
	jsonSame("loaded value", snap(t), m)
}

func TestVerif_C07(t *testing.T) {
	q := start(t, "C07")
	defer q.finish()
	o := &genOpt{floats32: true, str: jsonStr, key: jsonStr}
	styles := []dx.JsonEscapeStyle{dx.JSE_AllEscape, dx.JSE_OnlyAnsiChar}
	all := func(m *mv) {
		for i := 0; i < 4; i++ {
			i := i
			cached, share := q.r.Intn(2) == 0, q.r.Intn(2) == 0
			q.try(func() string {
				return fmt.Sprintf("cached=%v share=%v style=%d indented=%v %s", cached, share, styles[i&1], i&2 != 0, m)
			}, func() { jsonRT(m, cached, share, styles[i&1], i&2 != 0) })
		}
	}
	for _, i := range intEdges {
		all(&mv{k: dx.VT_Int, i: i})
		all(&mv{k: dx.VT_Array, kids: []*mv{{k: dx.VT_Int, i: i}, {k: dx.VT_True}}})
	}
	for _, f := range f64Edges {
		all(&mv{k: dx.VT_Double, f: f})
	}
	for c := 0; c < 128; c++ {
		if c == '%' {
			continue
		}
		for _, s := range []string{string(rune(c)), "a" + string(rune(c)), string(rune(c)) + "b", "\\" + string(rune(c)), string(rune(c)) + "\\", string(rune(c)) + "\"", "\"" + string(rune(c)), "\\\"" + string(rune(c)) + "\\\""} {
			all(&mv{k: dx.VT_Object, keys: []string{s, "zz"}, kids: []*mv{{k: dx.VT_String, s: s}, {k: dx.VT_Array, kids: []*mv{{k: dx.VT_String, s: s}}}}})
		}
	}
	for n := 0; n < 12; n++ {
		s := strings.Repeat("\\", n)
		all(&mv{k: dx.VT_Object, keys: []string{s}, kids: []*mv{{k: dx.VT_String, s: s + "\""}}})
	}
	for n := 0; n < 100 || q.left(); n++ {
		all(genTree(q.r, o, 4))
	}
}

func jsonTotal(b []byte) {
	for i := 0; i < 4; i++ {
		v, err := dx.NewValueFromJson(b, i&1 == 0, i&2 == 0)
		if (v == nil) == (err == nil) {
			fail("decoding gave value %v with error %v", v, err)
		}
		if err != nil {
			_ = err.Error()
			_ = fmt.Sprintf("%v %s", err, err)
		} else {
			snap(v)
		}
	}
	for i := 0; i < 4; i++ {
		var t *dx.DxValue
		switch i {
		case 0:
			t = dx.NewValue(dx.VT_Object)
		case 1:
			t = dx.NewCacheValue(dx.VT_Array)
			t.SetIndexInt(0, 3)
		case 2:
			t = dx.NewValue(dx.VT_String)
		case 3:
			t = dx.NewCacheValue(dx.VT_Object)
			t.SetKey("a", dx.VT_Object).SetKeyInt("b", 1)
		}
		if err := t.LoadFromJson(b, i&1 == 0); err != nil {
			_ = err.Error()
		} else {
			snap(t)
		}
	}
}

func TestVerif_C05(t *testing.T) {
	q := start(t, "C05")
	defer q.finish()
	one := func(b []byte) {
		e := make([]byte, len(b))
		copy(e, b)
		e = e[:len(e):len(e)]
		q.try(hexOf("text ", e), func() { jsonTotal(e) })
	}
	toks := []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "\"a\"", "\"k\":", "1", "-", "+", ".", "e", "E5", "t", "tr", "true", "f", "fals", "false", "n", "nu", "null", "nan", "NaN", "inf", "Inf", "-inf", " ", "\r\n", "\t", "\x00", "\x1f", "\"\\\"", "\"\\u12\"", "\\u", "\"\\", "0", "9999999999999999999", "1e999", "-0", "\"/Date(1)/\"", "\"Date(\"", "\"/Date(\"", "Date", "\xff", "汉", "%", "%4", "\"%4\"", "\"\\x\"", "\"\\U0001\"", "\"/Date()/\"", "\"/Date(12345678901234567890)/\"", "\"Date(1+0800)\""}
	// every text of up to three tokens
	for _, a := range toks {
		one([]byte(a))
		for _, b := range toks {
			one([]byte(a + b))
			for _, p := range []string{"{", "[", "{\"a\":", "[1,", "{\"\\", "\""} {
				one([]byte(p + a + b))
			}
		}
	}
	// prefixes of well-formed documents
	o := &genOpt{floats32: true, str: jsonStr, key: jsonStr}
	for q.left() {
		switch q.r.Intn(3) {
		case 0:
			var sb strings.Builder
			for k := q.r.Intn(12); k >= 0; k-- {
				sb.WriteString(toks[q.r.Intn(len(toks))])
			}
			one([]byte(sb.String()))
		case 1:
			b := dx.Value2Json(make1(genTree(q.r, o, 3), false), dx.JSE_OnlyAnsiChar, false, nil)
			one(b[:q.r.Intn(len(b)+1)])
			one(append(b, toks[q.r.Intn(len(toks))]...))
		default:
			b := dx.Value2FormatJson(make1(genTree(q.r, o, 3), false), dx.JSE_AllEscape, false, nil)
			one(mutate(q.r, b))
		}
	}
}
