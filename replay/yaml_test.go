package dxsvalue_test

import (
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
)

const yamlFixed = "a: 1\nb:\n  c: text\n  d: true\nl:\n  - 1\n  - x\n"

func yamlTotal(b []byte) {
	for i := 0; i < 2; i++ {
		v, err := dx.NewValueFromYaml(b, i == 0)
		if err != nil {
			if v != nil {
				fail("an error (%v) together with a value", err)
			}
			_ = err.Error()
		} else if v != nil {
			snap(v)
		}
	}
	for i := 0; i < 3; i++ {
		var t *dx.DxValue
		switch i {
		case 0:
			t = dx.NewValue(dx.VT_Object)
		case 1:
			t = dx.NewCacheValue(dx.VT_Array)
			t.SetIndexInt(0, 3)
		case 2:
			t = dx.NewValue(dx.VT_String)
		}
		if err := t.LoadFromYaml(b); err != nil {
			_ = err.Error()
		} else {
			snap(t)
		}
	}
}

func TestVerif_C06(t *testing.T) {
	q := start(t, "C06")
	defer q.finish()
	ref, err := dx.NewValueFromYaml([]byte(yamlFixed), false)
	want := "none"
	if err == nil {
		want = snap(ref).String()
	}
	n := 0
	one := func(s string) {
		e := []byte(s)
		e = e[:len(e):len(e)]
		q.try(hexOf("text ", e), func() {
			yamlTotal(e)
			n++
			if n%8 == 0 {
				// parsing is not influenced by what was parsed before
				v, err := dx.NewValueFromYaml([]byte(yamlFixed), n%16 == 0)
				if err != nil && want != "none" {
					fail("after this text a well-formed document is refused: %v", err)
				}
				if err == nil && snap(v).String() != want {
					fail("after this text a well-formed document decodes to %s, before to %s", snap(v), want)
				}
			}
		})
	}
	lines := []string{"a: 1", "a:", "- 1", "-", "- ", "- a: 1", "- a:", "- - 1", "&x", "a: &x", "a: &x 1", "b: *x", "b: *y", "*x", "<<: *x", "<<: *y", "<<:", "# c", "a: 1 # c", "a: |", "a: >", "a: >-", "a: |+", "text", "\"", "'", "a: \"x", "a: 'x'", "\"a\": 1", "a : 1", ":", "::", ": 1", "a:b", "- &x", "- *x", "- &x a: 1", "- <<: *x", "? a", "---", "...", "%YAML", "[1,2]", "{a: 1}", "a: [1", "a: {b: 1}", "a: true", "a: ~", "a: null", "a: 0x1F", "a: .inf", "a: 1e5", "a: -", "a: &", "a: *", "<<", "&", "*", "!", "a: !!str 1", "\t", "  ", "a: \\", "a: 2001-01-01", "a: >\n  x\n  y", "a: |\n  x", "a: &x\n  b: 1", "c:\n  <<: *x", "汉: 字", "\x00", "\xff: \xfe", "a:\tb", "- |", "- >"}
	ends := []string{"\n", "\r\n", "", "\r", "\n\n", " \n", "\n \n", "\n\t\n"}
	for _, a := range lines {
		for _, e := range ends {
			one(a + e)
			for _, ind := range []string{" ", "  ", "    ", "\t"} {
				one(ind + a + e)
				one("k:\n" + ind + a + e)
				one("-\n" + ind + a + e)
				one("k:\n" + ind + ind + "m:\n" + ind + a + e)
			}
		}
	}
	for _, a := range lines {
		for _, b := range lines {
			one(a + "\n" + b)
			one(a + "\n  " + b + "\n")
		}
	}
	for q.left() {
		var sb strings.Builder
		for k := q.r.Intn(7); k >= 0; k-- {
			sb.WriteString(strings.Repeat(" ", q.r.Intn(6)))
			sb.WriteString(lines[q.r.Intn(len(lines))])
			sb.WriteString(ends[q.r.Intn(len(ends))])
			if q.r.Intn(9) == 0 {
				sb.Write(junk(q.r, 6, []byte(" \n\r\t:-&*#<>|\"'")))
			}
		}
		s := sb.String()
		if q.r.Intn(4) == 0 {
			s = string(mutate(q.r, []byte(s)))
		}
		one(s)
	}
}
