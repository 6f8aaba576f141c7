package dxsvalue_test

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
)

// ---------- C08 ----------

type omap struct {
	keys []string
	vals []*mv
	fold bool
}

func (o *omap) find(k string) int {
	for i, x := range o.keys {
		if x == k || o.fold && strings.EqualFold(x, k) {
			return i
		}
	}
	return -1
}

func (o *omap) set(k string, m *mv) {
	if i := o.find(k); i >= 0 {
		o.vals[i] = m
		return
	}
	o.keys = append(o.keys, k)
	o.vals = append(o.vals, m)
}

func (o *omap) del(k string) *mv {
	i := o.find(k)
	if i < 0 {
		return nil
	}
	m := o.vals[i]
	o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
	o.vals = append(o.vals[:i:i], o.vals[i+1:]...)
	return m
}

func (o *omap) model() *mv { return &mv{k: dx.VT_Object, keys: o.keys, kids: o.vals} }

// jsonText writes the model with every name escaped in a chosen style.
func jsonText(m *mv, r *rand.Rand) string {
	switch m.k {
	case dx.VT_Object:
		var sb strings.Builder
		sb.WriteString("{")
		for i, k := range m.keys {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(jsonName(k, r) + ":" + jsonText(m.kids[i], r))
		}
		return sb.String() + "}"
	case dx.VT_Array:
		var p []string
		for _, c := range m.kids {
			p = append(p, jsonText(c, r))
		}
		return "[" + strings.Join(p, ",") + "]"
	case dx.VT_String:
		return jsonName(m.s, r)
	case dx.VT_Int:
		return fmt.Sprint(m.i)
	case dx.VT_Double, dx.VT_Float:
		s := strconv.FormatFloat(m.f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	case dx.VT_True:
		return "true"
	case dx.VT_False:
		return "false"
	case dx.VT_NULL:
		return "null"
	}
	panic("jsonText kind")
}

func jsonName(s string, r *rand.Rand) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			if r.Intn(4) == 0 {
				fmt.Fprintf(&sb, "\\u%04x", c)
			} else {
				sb.WriteByte('\\')
				sb.WriteRune(c)
			}
		case c < 0x20:
			fmt.Fprintf(&sb, "\\u%04x", c)
		case r.Intn(7) == 0 && c < 0x10000:
			fmt.Fprintf(&sb, "\\u%04X", c)
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

var keyPool = []string{"", "a", "b", "A", "Ab", "aB", "k1", "K1", "\\", "a\\b", "\"", "a\"b", "\\\\", "\n", "x/y", "é", "É", "汉", "0", "1", "-1", "name", "Name", "NAME", "\\n", "\\u0061", "'", "longer key name with spaces"}

func checkObj(v *dx.DxValue, o *omap, r *rand.Rand, raw bool) {
	// lookups first: they work on names still in escaped form
	for n := 0; n < 3; n++ {
		k := keyPool[r.Intn(len(keyPool))]
		if len(o.keys) > 0 && r.Intn(2) == 0 {
			k = o.keys[r.Intn(len(o.keys))]
		}
		var got *dx.DxValue
		switch r.Intn(3) {
		case 0:
			got = v.ValueByName(k)
		case 1:
			got = v.Find(k)
		case 2:
			got = v.ValueByPath(k)
		}
		i := o.find(k)
		if i < 0 {
			if got != nil {
				fail("looking up %q, which is not there, gives %s", k, snap(got))
			}
		} else {
			if got == nil {
				fail("looking up %q gives nothing", k)
			}
			same(fmt.Sprintf("value of %q", k), snap(got), o.vals[i])
		}
	}
	if v.Count() != len(o.keys) {
		fail("the object has %d entries, %d expected", v.Count(), len(o.keys))
	}
	if r.Intn(2) == 0 {
		i := 0
		v.Visit(func(k string, c *dx.DxValue) bool {
			if i >= len(o.keys) || k != o.keys[i] {
				fail("visiting entry %d gives the name %q", i, k)
			}
			i++
			return true
		})
		if i != len(o.keys) {
			fail("visiting sees %d of %d entries", i, len(o.keys))
		}
	}
	for i := range o.keys {
		if k := v.KeyNameByIndex(i); k != o.keys[i] {
			fail("entry %d is named %q, %q expected", i, k, o.keys[i])
		}
	}
	same("the object", snap(v), o.model())
	if k, c := v.Items(len(o.keys)); k != "" || c != nil {
		fail("an entry beyond the end")
	}
	if c := v.ValueByIndex(-1); c != nil {
		fail("an entry at -1")
	}
}

func TestVerif_C08(t *testing.T) {
	q := start(t, "C08")
	defer q.finish()
	defer func() { dx.IgnoreCase = false }()
	o := &genOpt{floats32: false, str: jsonStr, key: jsonStr}
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		m := &omap{fold: r.Intn(3) == 0}
		cnt := r.Intn(7)
		if r.Intn(10) == 0 {
			cnt = 20
		}
		for i := 0; i < cnt; i++ {
			k := keyPool[r.Intn(len(keyPool))]
			if r.Intn(3) == 0 {
				k = jsonStr(r)
			}
			if m.find(k) < 0 {
				c := genScalar(r, o)
				for c.k == dx.VT_Double {
					c = genScalar(r, o)
				}
				m.set(k, c)
			}
		}
		how := r.Intn(6)
		log := []string{fmt.Sprintf("ignoreCase=%v start=%d %s", m.fold, how, m.model())}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			dx.IgnoreCase = m.fold
			var v *dx.DxValue
			var err error
			raw := false
			switch how {
			case 0:
				v = make1(m.model(), false)
			case 1:
				v = make1(m.model(), true)
			case 2, 3:
				txt := jsonText(m.model(), r)
				log = append(log, "decoded from "+txt)
				v, err = dx.NewValueFromJson([]byte(txt), r.Intn(2) == 0, r.Intn(2) == 0)
				raw = true
			case 4:
				v, err = dx.NewValueFromMsgPack(mpEnc(m.model()), r.Intn(2) == 0, r.Intn(2) == 0)
			case 5:
				txt := jsonText(m.model(), r)
				log = append(log, "clone of "+txt)
				v, err = dx.NewValueFromJson([]byte(txt), r.Intn(2) == 0, false)
				if err == nil {
					v = v.Clone(r.Intn(2) == 0)
				}
				raw = true
			}
			if err != nil {
				fail("%v", err)
			}
			if r.Intn(2) == 0 {
				checkObj(v, m, r, raw)
			}
			for k := 1 + r.Intn(9); k > 0; k-- {
				name := keyPool[r.Intn(len(keyPool))]
				if len(m.keys) > 0 && r.Intn(2) == 0 {
					name = m.keys[r.Intn(len(m.keys))]
					if m.fold && r.Intn(2) == 0 {
						name = strings.ToUpper(name)
					}
				}
				op := r.Intn(13)
				log = append(log, fmt.Sprintf("op %d %q", op, name))
				switch op {
				case 0:
					v.SetKeyInt(name, int64(k))
					m.set(name, &mv{k: dx.VT_Int, i: int64(k)})
				case 1:
					v.SetKeyString(name, "s")
					m.set(name, &mv{k: dx.VT_String, s: "s"})
				case 2:
					v.SetKeyBool(name, true)
					m.set(name, &mv{k: dx.VT_True})
				case 3:
					v.SetKeyDouble(name, 2.5)
					m.set(name, &mv{k: dx.VT_Double, f: 2.5})
				case 4:
					v.SetKeyFloat(name, 1.5)
					m.set(name, &mv{k: dx.VT_Float, f: 1.5})
				case 5:
					c := v.SetKey(name, dx.VT_Array)
					if c.DataType != dx.VT_Array {
						fail("SetKey gave kind %d", c.DataType)
					}
					c.Clear()
					c.SetIndexInt(0, 1)
					m.set(name, &mv{k: dx.VT_Array, kids: []*mv{{k: dx.VT_Int, i: 1}}})
				case 6:
					c := dx.NewObject(false)
					c.SetKeyInt("in", 3)
					v.SetKeyValue(name, c)
					m.set(name, &mv{k: dx.VT_Object, keys: []string{"in"}, kids: []*mv{{k: dx.VT_Int, i: 3}}})
				case 7:
					v.SetKeyValue(name, dx.NewValue(dx.VT_NULL))
					m.set(name, &mv{k: dx.VT_NULL})
				case 8:
					c := v.SetKeyCached(name, dx.VT_String, v.ValueCache())
					c.SetString("cached")
					m.set(name, &mv{k: dx.VT_String, s: "cached"})
				case 9, 10:
					v.RemoveKey(name)
					m.del(name)
				case 11:
					got := v.ExtractValue(name)
					want := m.del(name)
					if (got == nil) != (want == nil) {
						fail("ExtractValue(%q) gives %v", name, got)
					}
					if got != nil {
						same("extracted value", snap(got), want)
					}
				case 12:
					v.ForcePath(dx.VT_Int, name).SetInt(9)
					m.set(name, &mv{k: dx.VT_Int, i: 9})
				}
				if r.Intn(3) != 0 {
					checkObj(v, m, r, raw)
				}
			}
			checkObj(v, m, r, raw)
		})
	}
}

// ---------- C09 ----------

func TestVerif_C09(t *testing.T) {
	q := start(t, "C09")
	defer q.finish()
	o := *allOpt
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		m := &mv{k: dx.VT_Array}
		cnt := r.Intn(5)
		if r.Intn(6) == 0 {
			cnt = []int{7, 8, 9, 15, 16, 17, 33}[r.Intn(7)]
		}
		for i := 0; i < cnt; i++ {
			m.kids = append(m.kids, genScalar(r, &o))
		}
		how := r.Intn(4)
		log := []string{fmt.Sprintf("start=%d %s", how, m)}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			var v *dx.DxValue
			var err error
			switch how {
			case 0:
				v = make1(m, false)
			case 1:
				v = make1(m, true)
			case 2:
				v, err = dx.NewValueFromMsgPack(mpEnc(m), r.Intn(2) == 0, r.Intn(2) == 0)
			case 3:
				v, err = dx.NewValueFromMsgPack(mpEnc(m), r.Intn(2) == 0, r.Intn(2) == 0)
				if err == nil {
					v = v.Clone(r.Intn(2) == 0)
				}
			}
			if err != nil {
				fail("%v", err)
			}
			set := func(i int, x *mv) {
				if i >= 0 && i < len(m.kids) {
					m.kids[i] = x
				} else {
					m.kids = append(m.kids, x)
				}
			}
			for k := 1 + r.Intn(10); k > 0; k-- {
				l := len(m.kids)
				idx := []int{0, l - 1, l, l + 1, -1, -7, l / 2, 1000000, math.MaxInt32, math.MinInt32, 1}[r.Intn(11)]
				if l > 0 && r.Intn(2) == 0 {
					idx = r.Intn(l)
				}
				op := r.Intn(13)
				log = append(log, fmt.Sprintf("op %d at %d", op, idx))
				switch op {
				case 0:
					v.SetIndexInt(idx, int64(k))
					set(idx, &mv{k: dx.VT_Int, i: int64(k)})
				case 1:
					v.SetIndexString(idx, "s")
					set(idx, &mv{k: dx.VT_String, s: "s"})
				case 2:
					v.SetIndexBool(idx, k%2 == 0)
					set(idx, &mv{k: map[bool]dx.ValueType{true: dx.VT_True, false: dx.VT_False}[k%2 == 0]})
				case 3:
					v.SetIndexDouble(idx, 2.5)
					set(idx, &mv{k: dx.VT_Double, f: 2.5})
				case 4:
					v.SetIndexFloat(idx, 2.5)
					set(idx, &mv{k: dx.VT_Float, f: 2.5})
				case 5:
					c := dx.NewObject(false)
					c.SetKeyInt("in", 3)
					v.SetIndexValue(idx, c)
					set(idx, &mv{k: dx.VT_Object, keys: []string{"in"}, kids: []*mv{{k: dx.VT_Int, i: 3}}})
				case 6:
					v.SetIndexValue(idx, dx.NewValue(dx.VT_NULL))
					set(idx, &mv{k: dx.VT_NULL})
				case 7, 8:
					c := v.InsertValue(idx, dx.VT_String)
					if c == nil || c.DataType != dx.VT_String || c.String() != "" {
						fail("InsertValue gave %v", snap(c))
					}
					c.SetString("ins")
					i := idx
					if i < 0 {
						i = 0
					}
					if i > l {
						i = l
					}
					ks := append([]*mv{}, m.kids[:i]...)
					ks = append(ks, &mv{k: dx.VT_String, s: "ins"})
					m.kids = append(ks, m.kids[i:]...)
				case 9:
					c := v.Append(dx.VT_Int)
					c.SetInt(77)
					m.kids = append(m.kids, &mv{k: dx.VT_Int, i: 77})
				case 10, 11:
					v.RemoveIndex(idx)
					if idx >= 0 && idx < l {
						ks := append([]*mv{}, m.kids[:idx]...)
						m.kids = append(ks, m.kids[idx+1:]...)
					}
				case 12:
					c := v.SetIndex(idx, dx.VT_Array)
					if c.DataType != dx.VT_Array {
						fail("SetIndex gave kind %d", c.DataType)
					}
					c.Clear()
					c.SetIndexInt(5, 1)
					set(idx, &mv{k: dx.VT_Array, kids: []*mv{{k: dx.VT_Int, i: 1}}})
				}
				same("the array", snap(v), m)
				for _, i := range []int{-1, 0, len(m.kids) - 1, len(m.kids), math.MaxInt64, math.MinInt64} {
					c := v.ValueByIndex(i)
					_, c2 := v.Items(i)
					if c != c2 {
						fail("ValueByIndex and Items differ at %d", i)
					}
					if (c != nil) != (i >= 0 && i < len(m.kids)) {
						fail("reading at %d of %d gives %v", i, len(m.kids), c)
					}
				}
				if v.Count() != len(m.kids) {
					fail("Count %d, %d elements", v.Count(), len(m.kids))
				}
			}
		})
	}
}

// ---------- C12 ----------

func modelEqual(a, b *mv) (bool, bool) { // equal, decided
	isnum := func(m *mv) bool { return m.k >= dx.VT_Int && m.k <= dx.VT_Double }
	num := func(m *mv) float64 {
		if m.k == dx.VT_Int {
			return float64(m.i)
		}
		return m.f
	}
	if a.k != b.k {
		if isnum(a) && isnum(b) {
			return num(a) == num(b), true
		}
		return false, true
	}
	switch a.k {
	case dx.VT_Object, dx.VT_Array:
		if len(a.kids) != len(b.kids) {
			return false, true
		}
		for i := range a.kids {
			if a.k == dx.VT_Object && a.keys[i] != b.keys[i] {
				return false, true
			}
			if e, _ := modelEqual(a.kids[i], b.kids[i]); !e {
				return false, true
			}
		}
		return true, true
	}
	return diff(a, b, "") == "", true
}

func newKey(m *mv, k string) string {
	for {
		used := false
		for _, x := range m.keys {
			used = used || x == k
		}
		if !used {
			return k
		}
		k += "x"
	}
}

func tweak(r *rand.Rand, m *mv, o *genOpt) *mv {
	m = clone(m)
	x := m
	for (x.k == dx.VT_Array || x.k == dx.VT_Object) && len(x.kids) > 0 && r.Intn(4) != 0 {
		x = x.kids[r.Intn(len(x.kids))]
	}
	switch x.k {
	case dx.VT_Array, dx.VT_Object:
		switch r.Intn(4) {
		case 0:
			if len(x.kids) > 0 {
				i := r.Intn(len(x.kids))
				x.kids = append(x.kids[:i], x.kids[i+1:]...)
				if x.k == dx.VT_Object {
					x.keys = append(x.keys[:i], x.keys[i+1:]...)
				}
			}
		case 1:
			x.kids = append(x.kids, genScalar(r, o))
			if x.k == dx.VT_Object {
				x.keys = append(x.keys, newKey(x, "extra key"))
			}
		case 2:
			if len(x.kids) > 1 {
				i := r.Intn(len(x.kids) - 1)
				x.kids[i], x.kids[i+1] = x.kids[i+1], x.kids[i]
				if x.k == dx.VT_Object && r.Intn(2) == 0 {
					x.keys[i], x.keys[i+1] = x.keys[i+1], x.keys[i]
				}
			}
		case 3:
			if x.k == dx.VT_Object && len(x.keys) > 0 {
				i := r.Intn(len(x.keys))
				x.keys[i] = newKey(x, x.keys[i]+"x")
			}
		}
	case dx.VT_String:
		switch r.Intn(4) {
		case 0:
			x.s += "x"
		case 1:
			x.s = strings.ToUpper(x.s)
		case 2:
			if len(x.s) > 0 {
				x.s = x.s[:len(x.s)-1]
			}
		case 3:
			b := []byte(x.s)
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1
			}
			x.s = string(b)
		}
	case dx.VT_Int:
		switch r.Intn(3) {
		case 0:
			x.i++
		case 1:
			x.i ^= 1 << uint(r.Intn(64))
		case 2:
			*x = mv{k: dx.VT_Double, f: float64(x.i)}
		}
	case dx.VT_Double:
		switch r.Intn(3) {
		case 0:
			x.f = math.Float64frombits(math.Float64bits(x.f) ^ 1<<uint(r.Intn(64)))
		case 1:
			if f := float32(x.f); f == f {
				*x = mv{k: dx.VT_Float, f: float64(f)}
			}
		case 2:
			x.f = -x.f
		}
	case dx.VT_Binary, dx.VT_ExBinary:
		switch r.Intn(3) {
		case 0:
			x.bin = append(x.bin, 0)
		case 1:
			if len(x.bin) > 0 {
				x.bin[r.Intn(len(x.bin))] ^= 0x80
			}
		case 2:
			x.ext = (x.ext + 1) % 250
			if x.k == dx.VT_Binary {
				x.ext = 0
				x.bin = append([]byte{1}, x.bin...)
			}
		}
	default:
		*x = *genScalar(r, o)
	}
	return m
}

// used makes a value that held something else before.
func used(r *rand.Rand, m *mv, o *genOpt) *dx.DxValue {
	if r.Intn(3) == 0 {
		return make1(m, r.Intn(2) == 0)
	}
	for _, k := range constKinds {
		if m.k == k {
			return dx.NewValue(k)
		}
	}
	v := make1(genTree(r, o, 2), r.Intn(2) == 0)
	if isConst(v) {
		v = dx.NewValue(dx.VT_Int)
		v.SetInt(-1)
	}
	fill(v, m)
	return v
}

func TestVerif_C12(t *testing.T) {
	q := start(t, "C12")
	defer q.finish()
	o := *allOpt
	o.key = anyStr
	pair := func(a, b *mv, va, vb func() *dx.DxValue) {
		q.try(func() string { return fmt.Sprintf("%s  and  %s", a, b) }, func() {
			x, y := va(), vb()
			want, _ := modelEqual(a, b)
			if g := x.Equal(y); g != want {
				fail("Equal gives %v", g)
			}
			if g := y.Equal(x); g != want {
				fail("Equal the other way round gives %v", g)
			}
			same("left value after the comparison", snap(x), a)
			same("right value after the comparison", snap(y), b)
			if !x.Equal(x) {
				fail("a value is not equal to itself")
			}
			var none *dx.DxValue
			if none.Equal(x) || x.Equal(none) || !none.Equal(none) {
				fail("comparison with nothing")
			}
		})
	}
	var edge []*mv
	for _, i := range []int64{0, 1, -1, 100, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64} {
		edge = append(edge, &mv{k: dx.VT_Int, i: i}, &mv{k: dx.VT_Double, f: float64(i)}, &mv{k: dx.VT_Float, f: float64(float32(i))}, &mv{k: dx.VT_DateTime, f: float64(i)})
	}
	for _, k := range constKinds {
		edge = append(edge, &mv{k: k})
	}
	for _, s := range []string{"", "a", "A", "true", "null", "0"} {
		edge = append(edge, &mv{k: dx.VT_String, s: s}, &mv{k: dx.VT_Binary, bin: []byte(s)}, &mv{k: dx.VT_ExBinary, bin: []byte(s), ext: 1}, &mv{k: dx.VT_ExBinary, bin: []byte(s), ext: 2})
	}
	edge = append(edge, &mv{k: dx.VT_Array}, &mv{k: dx.VT_Object}, &mv{k: dx.VT_Array, kids: []*mv{{k: dx.VT_NULL}}}, &mv{k: dx.VT_Object, keys: []string{"a"}, kids: []*mv{{k: dx.VT_NULL}}})
	for _, a := range edge {
		for _, b := range edge {
			a, b := a, b
			pair(a, b, func() *dx.DxValue { return make1(a, false) }, func() *dx.DxValue { return used(q.r, b, &o) })
		}
	}
	for q.left() {
		a := genTree(q.r, &o, 3)
		b := clone(a)
		if q.r.Intn(3) != 0 {
			b = tweak(q.r, a, &o)
		}
		if hasNaN(a) || hasNaN(b) {
			continue
		}
		pair(a, b, func() *dx.DxValue { return used(q.r, a, &o) }, func() *dx.DxValue { return used(q.r, b, &o) })
	}
}

func hasNaN(m *mv) bool {
	if (m.k == dx.VT_Double || m.k == dx.VT_Float) && m.f != m.f {
		return true
	}
	for _, c := range m.kids {
		if hasNaN(c) {
			return true
		}
	}
	return false
}

// ---------- C13 ----------

type mergeCall struct {
	path string
	a, b string
}

// mergeModel is the specification of merging b into a.
func mergeModel(a, b *mv, path string, f func(string) dx.MergeOp, calls *[]mergeCall) {
	if a.k != b.k {
		return
	}
	if a.k == dx.VT_Array {
		n := len(a.kids)
		for _, x := range b.kids {
			found := false
			for _, y := range a.kids[:n] {
				if e, _ := modelEqual(x, y); e {
					found = true
				}
			}
			if !found {
				a.kids = append(a.kids, clone(x))
			}
		}
		return
	}
	for i, k := range b.keys {
		j := -1
		for t := range a.keys {
			if a.keys[t] == k {
				j = t
			}
		}
		if j < 0 {
			a.keys = append(a.keys, k)
			a.kids = append(a.kids, clone(b.kids[i]))
			continue
		}
		p := k
		if path != "" {
			p = path + "/" + k
		}
		op := dx.MO_Normal
		if f != nil {
			*calls = append(*calls, mergeCall{p, a.kids[j].String(), b.kids[i].String()})
			op = f(p)
		}
		switch op {
		case dx.MO_Normal:
			if a.kids[j].k == b.kids[i].k && a.kids[j].k <= dx.VT_Array {
				mergeModel(a.kids[j], b.kids[i], p, f, calls)
			} else {
				a.kids[j] = &mv{k: dx.VT_Array, kids: []*mv{a.kids[j], clone(b.kids[i])}}
			}
		case dx.MO_Replace:
			a.kids[j] = clone(b.kids[i])
		}
	}
}

func TestVerif_C13(t *testing.T) {
	q := start(t, "C13")
	defer q.finish()
	o := *allOpt
	o.nonfin = false
	o.key = func(r *rand.Rand) string { return []string{"a", "b", "c", "d", "e", "x y", "\\", "é"}[r.Intn(8)] }
	o.str = func(r *rand.Rand) string { return []string{"", "s", "t", "S"}[r.Intn(4)] }
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		var a, b *mv
		if r.Intn(4) == 0 {
			a, b = &mv{k: dx.VT_Array}, &mv{k: dx.VT_Array}
			for i := r.Intn(5); i > 0; i-- {
				a.kids = append(a.kids, genTree(r, &o, 2))
			}
			for i := r.Intn(5); i > 0; i-- {
				if len(a.kids) > 0 && r.Intn(3) == 0 {
					b.kids = append(b.kids, clone(a.kids[r.Intn(len(a.kids))]))
				} else {
					b.kids = append(b.kids, genTree(r, &o, 2))
				}
			}
		} else {
			a, b = genObj(r, &o, 4, r.Intn(6)), genObj(r, &o, 4, r.Intn(6))
			if r.Intn(2) == 0 {
				b = clone(a)
				for k := r.Intn(4); k > 0; k-- {
					b = tweak(r, b, &o)
				}
			}
		}
		mode := r.Intn(4)
		salt := r.Intn(1000)
		var f func(string) dx.MergeOp
		switch mode {
		case 1:
			f = func(string) dx.MergeOp { return dx.MO_Replace }
		case 2:
			f = func(p string) dx.MergeOp {
				h := salt
				for _, c := range []byte(p) {
					h = h*31 + int(c)
				}
				if h < 0 {
					h = -h
				}
				return []dx.MergeOp{dx.MO_Normal, dx.MO_Replace, dx.MO_Custom, dx.MO_Normal}[h%4]
			}
		case 3:
			f = func(string) dx.MergeOp { return dx.MO_Normal }
		}
		q.try(func() string { return fmt.Sprintf("mode=%d target %s source %s", mode, a, b) }, func() {
			x, y := make1(a, r.Intn(2) == 0), make1(b, r.Intn(2) == 0)
			want := clone(a)
			var calls, got []mergeCall
			mergeModel(want, b, "", f, &calls)
			var mf dx.MergeFunc
			if f != nil {
				mf = func(p string, ov, nv *dx.DxValue) dx.MergeOp {
					got = append(got, mergeCall{strings.Clone(p), snap(ov).String(), snap(nv).String()})
					return f(p)
				}
			}
			x.MergeWith(y, mf)
			same("merged value", snap(x), want)
			same("the source after merging", snap(y), b)
			for i := 0; i < len(calls) || i < len(got); i++ {
				if i >= len(calls) || i >= len(got) || calls[i] != got[i] {
					fail("the decision function was asked %v, %v expected", got, calls)
				}
			}
			// what was added is a copy
			share := map[*dx.DxValue]bool{}
			nodes(y, func(c *dx.DxValue) { share[c] = true })
			nodes(x, func(c *dx.DxValue) {
				if share[c] && !isConst(c) {
					fail("a node of the source is part of the target: %s", snap(c))
				}
			})
		})
	}
}

// ---------- C19 ----------

func TestVerif_C19(t *testing.T) {
	q := start(t, "C19")
	defer q.finish()
	o := *allOpt
	o.nonfin = false
	ks := []string{"a", "b", "c", "0", "1", "", "\\x", "k\"q"}
	o.key = func(r *rand.Rand) string { return ks[r.Intn(len(ks))] }
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		m := genObj(r, &o, 4, 1+r.Intn(5))
		var path []string
		for k := r.Intn(5); k > 0; k-- {
			path = append(path, ks[r.Intn(len(ks))])
		}
		src := r.Intn(3)
		q.try(func() string { return fmt.Sprintf("from=%d path %q in %s", src, path, m) }, func() {
			build := func() *dx.DxValue {
				switch src {
				case 0:
					return make1(m, false)
				case 1:
					return make1(m, true)
				}
				v, err := dx.NewValueFromMsgPack(mpEnc(m), r.Intn(2) == 0, false)
				if err != nil {
					fail("%v", err)
				}
				return v
			}
			v := build()
			got := v.ValueByPath(path...)
			cur := v
			for _, p := range path {
				if cur = cur.ValueByName(p); cur == nil {
					break
				}
			}
			if got != cur {
				fail("ValueByPath gives %s, name by name %s", snap(got), snap(cur))
			}
			// against the model
			mc := m
			for _, p := range path {
				if mc == nil {
					break
				}
				var next *mv
				switch mc.k {
				case dx.VT_Object:
					for i, k := range mc.keys {
						if k == p {
							next = mc.kids[i]
						}
					}
				case dx.VT_Array:
					if i, err := strconv.Atoi(p); err == nil && i >= 0 && i < len(mc.kids) {
						next = mc.kids[i]
					}
				}
				mc = next
			}
			same("looked up value", snap(got), mc)
			if len(path) == 0 {
				if v.ForcePath(dx.VT_Int) != v {
					fail("an empty path leads elsewhere")
				}
				return
			}
			// forcing: only through objects and non-containers
			x := m
			onlyObj := true
			for i, p := range path {
				if x == nil || x.k > dx.VT_Array {
					if i > 0 && x != nil {
						onlyObj = false
					}
					x = nil
					continue
				}
				if x.k == dx.VT_Array {
					return
				}
				var next *mv
				for j, k := range x.keys {
					if k == p {
						next = x.kids[j]
					}
				}
				x = next
			}
			_ = onlyObj
			vt := []dx.ValueType{dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_Int, dx.VT_Double, dx.VT_Float, dx.VT_Binary, dx.VT_True, dx.VT_NULL, dx.VT_DateTime}[r.Intn(10)]
			f := v.ForcePath(vt, path...)
			if f == nil || f.DataType != vt {
				fail("ForcePath(%d) gave %s", vt, snap(f))
			}
			if l := v.ValueByPath(path...); l != f {
				fail("after ForcePath(%d) the path leads to %s, not to the node returned (%s)", vt, snap(l), snap(f))
			}
			// entries off the path
			mm, vv := m, v
			for _, p := range path {
				if mm == nil || mm.k != dx.VT_Object {
					break
				}
				found := -1
				for j, k := range mm.keys {
					if k == p {
						found = j
						continue
					}
					kn, c := vv.Items(j)
					if kn != k {
						fail("entry %d is now named %q, was %q", j, kn, k)
					}
					same("entry off the path "+k, snap(c), mm.kids[j])
				}
				extra := 0
				if found < 0 {
					extra = 1
				}
				if vv.Count() != len(mm.keys)+extra {
					fail("the object on the path has %d entries, had %d", vv.Count(), len(mm.keys))
				}
				if found < 0 {
					break
				}
				mm = mm.kids[found]
				vv = vv.ValueByName(p)
			}
			f.SetString("forced")
			if s := v.StringByPath("?", path...); s != "forced" {
				fail("after setting the forced node the path reads %q", s)
			}
		})
	}
}

var _ = json.Marshal
