package dxsvalue_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

// Executable oracles of the properties: they run the real code on generated inputs, look for an
// input that fails (the replay of a failed obligation) and stand in, bounded, for what the proofs
// leave out. Only the exported interface is used.

type run struct {
	t        *testing.T
	prop     string
	r        *rand.Rand
	end      time.Time
	evals    int
	distinct map[uint64]bool
	samples  []string
	cur      func() string
	curMu    sync.Mutex
	beat     int64
	trace    string
	thorough bool
	stop     chan bool
	once     sync.Once
}

type randT = *rand.Rand

type failure struct{ msg string }

func start(t *testing.T, prop string) *run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	q := &run{t: t, prop: prop, distinct: map[uint64]bool{}, trace: os.Getenv("VERIF_TRACE"), stop: make(chan bool)}
	q.r = rand.New(rand.NewSource(seed*7919 + 13))
	d := 12 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 120 * time.Second
		q.thorough = true
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		n, _ := strconv.Atoi(s)
		d = time.Duration(n) * time.Second
	}
	q.end = time.Now().Add(d)
	debug.SetMaxStack(64 << 20)
	go func() {
		last := int64(-1)
		for {
			select {
			case <-q.stop:
				return
			case <-time.After(40 * time.Second):
			}
			b := atomic.LoadInt64(&q.beat)
			if b == last {
				q.curMu.Lock()
				c := q.cur
				q.curMu.Unlock()
				s := ""
				if c != nil {
					s = c()
				}
				q.report("the operation did not return within 40 s", s)
				os.Exit(1)
			}
			last = b
		}
	}()
	return q
}

func (q *run) left() bool { return time.Now().Before(q.end) }

func (q *run) report(msg, input string) {
	out := map[string]interface{}{"property": q.prop, "what": msg, "input": input, "seed": os.Getenv("VERIF_SEED")}
	b, _ := json.MarshalIndent(out, "", " ")
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		os.WriteFile(f, b, 0644)
	}
	fmt.Printf("FAILING-INPUT %s\n", b)
}

func (q *run) finish() {
	q.finishNo()
	out := map[string]interface{}{"evaluations": q.evals, "distinct": len(q.distinct), "samples": q.samples}
	b, _ := json.Marshal(out)
	if f := os.Getenv("VERIF_STATS"); f != "" {
		os.WriteFile(f, b, 0644)
	}
	if q.t != nil && q.evals == 0 {
		q.t.Fatal("no case was run")
	}
}

// try runs one case; a panic or a failed check is a failing input.
func (q *run) try(input func() string, f func()) {
	q.evals++
	atomic.AddInt64(&q.beat, 1)
	q.curMu.Lock()
	q.cur = input
	q.curMu.Unlock()
	if q.trace != "" {
		os.WriteFile(q.trace, []byte(input()), 0644)
	}
	defer func() {
		if p := recover(); p != nil {
			msg := ""
			if fl, ok := p.(failure); ok {
				msg = fl.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
			q.report(msg, input())
			q.finishNo()
			q.t.FailNow()
		}
	}()
	f()
	if q.evals <= 400 || q.evals%97 == 0 {
		s := input()
		h := uint64(14695981039346656037)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		q.distinct[h] = true
		if len(q.samples) < 6 && (q.evals%37 == 1) {
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			q.samples = append(q.samples, s)
		}
	}
}

func (q *run) finishNo() { q.once.Do(func() { close(q.stop) }) }

func fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

func text(s string) func() string { return func() string { return s } }
func hexOf(pre string, b []byte) func() string {
	return func() string { return pre + fmt.Sprintf("%q", string(b)) }
}

// ---------- model values ----------

type mv struct {
	k    dx.ValueType
	s    string
	i    int64
	f    float64
	bin  []byte
	ext  byte
	keys []string
	kids []*mv
}

func (m *mv) String() string {
	if m == nil {
		return "nil"
	}
	switch m.k {
	case dx.VT_Object:
		var sb strings.Builder
		sb.WriteString("{")
		for i, k := range m.keys {
			if i > 0 {
				sb.WriteString(", ")
			}
			if i > 40 {
				fmt.Fprintf(&sb, "... %d entries", len(m.keys))
				break
			}
			fmt.Fprintf(&sb, "%s: %s", short(k), m.kids[i])
		}
		sb.WriteString("}")
		return sb.String()
	case dx.VT_Array:
		var sb strings.Builder
		sb.WriteString("[")
		for i, k := range m.kids {
			if i > 0 {
				sb.WriteString(", ")
			}
			if i > 40 {
				fmt.Fprintf(&sb, "... %d elements", len(m.kids))
				break
			}
			sb.WriteString(k.String())
		}
		sb.WriteString("]")
		return sb.String()
	case dx.VT_String, dx.VT_RawString:
		return short(m.s)
	case dx.VT_Int:
		return fmt.Sprintf("int(%d)", m.i)
	case dx.VT_Float:
		return fmt.Sprintf("float32(bits %08x = %v)", math.Float32bits(float32(m.f)), float32(m.f))
	case dx.VT_Double:
		return fmt.Sprintf("float64(bits %016x = %v)", math.Float64bits(m.f), m.f)
	case dx.VT_DateTime:
		return fmt.Sprintf("datetime(%v)", m.f)
	case dx.VT_Binary:
		return fmt.Sprintf("binary[%d]%s", len(m.bin), short(string(m.bin)))
	case dx.VT_ExBinary:
		return fmt.Sprintf("ext(%d)[%d]%s", m.ext, len(m.bin), short(string(m.bin)))
	}
	return fmt.Sprintf("kind%d", m.k)
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// snap reads a value through the exported interface.
func snap(v *dx.DxValue) *mv {
	if v == nil {
		return nil
	}
	m := &mv{k: v.DataType, ext: 0}
	switch v.DataType {
	case dx.VT_Object:
		n := v.Count()
		for i := 0; i < n; i++ {
			k, c := v.Items(i)
			m.keys = append(m.keys, strings.Clone(k))
			m.kids = append(m.kids, snap(c))
		}
	case dx.VT_Array:
		n := v.Count()
		for i := 0; i < n; i++ {
			_, c := v.Items(i)
			m.kids = append(m.kids, snap(c))
		}
	case dx.VT_String, dx.VT_RawString:
		m.s = strings.Clone(v.String())
	case dx.VT_Int:
		m.i = v.Int()
	case dx.VT_Float:
		m.f = float64(v.Float())
	case dx.VT_Double, dx.VT_DateTime:
		m.f = v.Double()
	case dx.VT_Binary:
		m.bin = append([]byte{}, v.Binary()...)
	case dx.VT_ExBinary:
		m.bin = append([]byte{}, v.Binary()...)
		m.ext = v.BinExtType()
	}
	return m
}

// diff: "" when the two are the same value (floats bit for bit, raw strings as strings).
func diff(a, b *mv, path string) string {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return ""
		}
		return fmt.Sprintf("%s: %s against %s", path, a, b)
	}
	ka, kb := a.k, b.k
	if ka == dx.VT_RawString {
		ka = dx.VT_String
	}
	if kb == dx.VT_RawString {
		kb = dx.VT_String
	}
	if ka != kb {
		return fmt.Sprintf("%s: kind %d (%s) against kind %d (%s)", path, a.k, a, b.k, b)
	}
	switch ka {
	case dx.VT_Object:
		if len(a.keys) != len(b.keys) {
			return fmt.Sprintf("%s: %d entries against %d: %s against %s", path, len(a.keys), len(b.keys), a, b)
		}
		for i := range a.keys {
			if a.keys[i] != b.keys[i] {
				return fmt.Sprintf("%s: key %d is %q against %q", path, i, a.keys[i], b.keys[i])
			}
			if d := diff(a.kids[i], b.kids[i], path+"/"+short(a.keys[i])); d != "" {
				return d
			}
		}
	case dx.VT_Array:
		if len(a.kids) != len(b.kids) {
			return fmt.Sprintf("%s: %d elements against %d: %s against %s", path, len(a.kids), len(b.kids), a, b)
		}
		for i := range a.kids {
			if d := diff(a.kids[i], b.kids[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case dx.VT_String:
		if a.s != b.s {
			return fmt.Sprintf("%s: %s against %s", path, short(a.s), short(b.s))
		}
	case dx.VT_Int:
		if a.i != b.i {
			return fmt.Sprintf("%s: %d against %d", path, a.i, b.i)
		}
	case dx.VT_Float:
		if math.Float32bits(float32(a.f)) != math.Float32bits(float32(b.f)) && !(a.f != a.f && b.f != b.f) {
			return fmt.Sprintf("%s: %s against %s", path, a, b)
		}
	case dx.VT_Double, dx.VT_DateTime:
		if math.Float64bits(a.f) != math.Float64bits(b.f) {
			return fmt.Sprintf("%s: %s against %s", path, a, b)
		}
	case dx.VT_Binary, dx.VT_ExBinary:
		if !bytes.Equal(a.bin, b.bin) || a.ext != b.ext {
			return fmt.Sprintf("%s: %s against %s", path, a, b)
		}
	}
	return ""
}

func same(what string, got, want *mv) {
	if d := diff(got, want, ""); d != "" {
		fail("%s: %s\n got  %s\n want %s", what, d, got, want)
	}
}

// ---------- generators ----------

var intEdges = func() []int64 {
	var out []int64
	for _, b := range []uint{0, 5, 7, 8, 15, 16, 31, 32, 47, 53, 62, 63} {
		p := int64(1) << b
		for d := int64(-1); d <= 1; d++ {
			out = append(out, p+d, -p+d)
		}
	}
	return append(out, 0, 10, 100, 999999999999999999, -999999999999999999, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1)
}()

var f64Edges = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 0.1, -0.1, 1.5, 1e-7, 1e21, 1e22, 123456.789, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxInt64, 1 << 53, 1<<53 + 2, 3.141592653589793, 2.2250738585072014e-308, 16777217, 1e15, 1e16, 12345678901234567, 4.9e-324, 0.30000000000000004, 100, 256, -300.25}

type genOpt struct {
	floats32 bool
	bin, ext bool
	nonfin   bool
	date     bool
	str      func(r *rand.Rand) string
	key      func(r *rand.Rand) string
	bigStr   bool
	depth    int
}

const plain = "abcxyzKLM019 _-"

func plainStr(r *rand.Rand) string {
	n := r.Intn(7)
	if r.Intn(12) == 0 {
		n = []int{15, 16, 31, 32, 33, 64, 100, 255, 256, 257}[r.Intn(10)]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = plain[r.Intn(len(plain))]
	}
	return string(b)
}

func anyStr(r *rand.Rand) string {
	n := r.Intn(8)
	if r.Intn(12) == 0 {
		n = []int{15, 16, 31, 32, 33, 64, 100, 255, 256, 257}[r.Intn(10)]
	}
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			const sp = "\\\"/%\x00\n\t\r'u"
			b[i] = sp[r.Intn(len(sp))]
		default:
			b[i] = plain[r.Intn(len(plain))]
		}
	}
	return string(b)
}

// jsonStr: valid UTF-8 in the Basic Multilingual Plane without '%'.
func jsonStr(r *rand.Rand) string {
	n := r.Intn(8)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			const sp = "\\\"/\b\f\n\r\t'<>&:,{}[]"
			sb.WriteByte(sp[r.Intn(len(sp))])
		case 1:
			sb.WriteRune([]rune{0x80, 0xe9, 0x7ff, 0x800, 0x4e2d, 0xffee, 0x2028, 0xfffd}[r.Intn(8)])
		case 2:
			c := byte(r.Intn(128))
			if c == '%' {
				c = 'p'
			}
			sb.WriteByte(c)
		default:
			sb.WriteByte(plain[r.Intn(len(plain))])
		}
	}
	return sb.String()
}

func genScalar(r *rand.Rand, o *genOpt) *mv {
	for {
		switch r.Intn(9) {
		case 0, 1:
			return &mv{k: dx.VT_String, s: o.str(r)}
		case 2, 3:
			if r.Intn(2) == 0 {
				return &mv{k: dx.VT_Int, i: intEdges[r.Intn(len(intEdges))]}
			}
			return &mv{k: dx.VT_Int, i: int64(r.Uint64()) >> uint(r.Intn(64))}
		case 4:
			f := f64Edges[r.Intn(len(f64Edges))]
			if r.Intn(2) == 0 {
				f = math.Float64frombits(r.Uint64())
			}
			if !o.nonfin && (math.IsNaN(f) || math.IsInf(f, 0)) {
				continue
			}
			return &mv{k: dx.VT_Double, f: f}
		case 5:
			if !o.floats32 {
				continue
			}
			f := float32(f64Edges[r.Intn(len(f64Edges))])
			if r.Intn(2) == 0 {
				f = math.Float32frombits(r.Uint32())
			}
			if f != f || !o.nonfin && math.IsInf(float64(f), 0) {
				continue
			}
			return &mv{k: dx.VT_Float, f: float64(f)}
		case 6:
			return &mv{k: []dx.ValueType{dx.VT_True, dx.VT_False, dx.VT_NULL}[r.Intn(3)]}
		case 7:
			if !o.bin {
				continue
			}
			return &mv{k: dx.VT_Binary, bin: []byte(anyStr(r))}
		case 8:
			if !o.ext {
				continue
			}
			return &mv{k: dx.VT_ExBinary, bin: []byte(anyStr(r)), ext: byte(r.Intn(255))}
		}
	}
}

func genTree(r *rand.Rand, o *genOpt, depth int) *mv {
	if depth <= 0 || r.Intn(3) == 0 {
		return genScalar(r, o)
	}
	n := r.Intn(5)
	if r.Intn(15) == 0 {
		n = []int{15, 16, 17, 40}[r.Intn(4)]
		depth = 1
	}
	if r.Intn(2) == 0 {
		m := &mv{k: dx.VT_Array}
		for i := 0; i < n; i++ {
			m.kids = append(m.kids, genTree(r, o, depth-1))
		}
		return m
	}
	return genObj(r, o, depth, n)
}

func genObj(r *rand.Rand, o *genOpt, depth, n int) *mv {
	m := &mv{k: dx.VT_Object}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := o.key(r)
		if seen[k] {
			k = fmt.Sprintf("k%d", i)
			if seen[k] {
				continue
			}
		}
		seen[k] = true
		m.keys = append(m.keys, k)
		m.kids = append(m.kids, genTree(r, o, depth-1))
	}
	return m
}

// fill makes v hold m through the exported interface.
func fill(v *dx.DxValue, m *mv) {
	switch m.k {
	case dx.VT_Object:
		v.Reset(dx.VT_Object)
		for i, k := range m.keys {
			c := m.kids[i]
			switch c.k {
			case dx.VT_NULL, dx.VT_True, dx.VT_False, dx.VT_NAN, dx.VT_INF:
				v.SetKeyValue(k, dx.NewValue(c.k))
			default:
				fill(v.SetKey(k, c.k), c)
			}
		}
	case dx.VT_Array:
		v.Reset(dx.VT_Array)
		for i, c := range m.kids {
			switch c.k {
			case dx.VT_NULL, dx.VT_True, dx.VT_False, dx.VT_NAN, dx.VT_INF:
				v.SetIndexValue(i, dx.NewValue(c.k))
			default:
				fill(v.SetIndex(i, c.k), c)
			}
		}
	case dx.VT_String:
		v.SetString(m.s)
	case dx.VT_Int:
		v.SetInt(m.i)
	case dx.VT_Float:
		v.SetFloat(float32(m.f))
	case dx.VT_Double:
		v.Reset(dx.VT_Double)
		v.SetDouble(m.f)
	case dx.VT_DateTime:
		v.Reset(dx.VT_DateTime)
		v.SetDouble(m.f)
	case dx.VT_Binary:
		v.Reset(dx.VT_Binary)
		v.SetBinary(m.bin, true)
	case dx.VT_ExBinary:
		v.Reset(dx.VT_ExBinary)
		v.SetExtType(m.ext)
		v.SetBinary(m.bin, true)
	default:
		v.Reset(m.k)
	}
}

func make1(m *mv, cached bool) *dx.DxValue {
	switch m.k {
	case dx.VT_NULL, dx.VT_True, dx.VT_False, dx.VT_NAN, dx.VT_INF:
		return dx.NewValue(m.k)
	}
	var v *dx.DxValue
	if cached {
		v = dx.NewCacheValue(m.k)
	} else {
		v = dx.NewValue(m.k)
	}
	fill(v, m)
	return v
}

func clone(m *mv) *mv {
	if m == nil {
		return nil
	}
	n := *m
	n.bin = append([]byte{}, m.bin...)
	n.keys = append([]string{}, m.keys...)
	n.kids = nil
	for _, c := range m.kids {
		n.kids = append(n.kids, clone(c))
	}
	return &n
}

func nodes(v *dx.DxValue, f func(*dx.DxValue)) {
	if v == nil {
		return
	}
	f(v)
	if v.DataType == dx.VT_Object || v.DataType == dx.VT_Array {
		for i := 0; i < v.Count(); i++ {
			_, c := v.Items(i)
			nodes(c, f)
		}
	}
}

var constKinds = []dx.ValueType{dx.VT_True, dx.VT_False, dx.VT_NULL, dx.VT_NAN, dx.VT_INF}

func isConst(v *dx.DxValue) bool {
	for _, k := range constKinds {
		if v == dx.NewValue(k) {
			return true
		}
	}
	return false
}

// checkConsts: the shared constants are what they are.
func checkConsts(after string) {
	for _, k := range constKinds {
		c := dx.NewValue(k)
		if c == nil || c.DataType != k || c.ExtType != 0 || c.ValueCache() != nil {
			fail("the shared constant of kind %d changed after %s: %+v", k, after, c)
		}
		s := map[dx.ValueType]string{dx.VT_True: "true", dx.VT_False: "false"}[k]
		if s != "" && c.String() != s {
			fail("the shared constant of kind %d reads %q after %s", k, c.String(), after)
		}
		// no content: seen through the structure itself
		if x := fmt.Sprintf("%+v", *c); x != constDump[k] {
			fail("the shared constant of kind %d changed after %s: %s, was %s", k, after, x, constDump[k])
		}
	}
}

var constDump = func() map[dx.ValueType]string {
	m := map[dx.ValueType]string{}
	for _, k := range constKinds {
		m[k] = fmt.Sprintf("%+v", *dx.NewValue(k))
	}
	return m
}()

var allOpt = &genOpt{floats32: true, bin: true, ext: true, nonfin: true, str: anyStr, key: plainStr}
