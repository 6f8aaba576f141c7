package dxsvalue_test

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	dx "github.com/suiyunonghen/dxsvalue"
	"github.com/suiyunonghen/DxCommonLib"
)

var allKinds = []dx.ValueType{dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime, dx.VT_Binary, dx.VT_ExBinary, dx.VT_NULL, dx.VT_True, dx.VT_False, dx.VT_NAN, dx.VT_INF}

func pick(r *rand.Rand, v *dx.DxValue) *dx.DxValue {
	var all []*dx.DxValue
	nodes(v, func(c *dx.DxValue) { all = append(all, c) })
	return all[r.Intn(len(all))]
}

// mutateNode applies one random operation of the exported interface to a node.
func mutateNode(r *rand.Rand, v *dx.DxValue) string {
	name := keyPool[r.Intn(len(keyPool))]
	if v.DataType == dx.VT_Object && v.Count() > 0 && r.Intn(2) == 0 {
		name = v.KeyNameByIndex(r.Intn(v.Count()))
	}
	if v.DataType == dx.VT_Array {
		name = fmt.Sprint(r.Intn(v.Count() + 2))
	}
	idx := r.Intn(v.Count()+3) - 1
	k := allKinds[r.Intn(len(allKinds))]
	op := r.Intn(40)
	switch op {
	case 0:
		v.SetInt(r.Int63())
	case 1:
		v.SetString("mutated")
	case 2:
		v.SetDouble(3.25)
	case 3:
		v.SetFloat(1.25)
	case 4:
		v.SetBool(r.Intn(2) == 0)
	case 5:
		v.SetBinary([]byte("zzzzz"), true)
	case 6:
		v.SetExtType(77)
	case 7:
		v.Reset(k)
	case 8:
		v.SetKeyInt(name, 5)
	case 9:
		v.SetKeyString(name, "m")
	case 10:
		v.SetKeyBool(name, true)
	case 11:
		v.SetKeyDouble(name, 1.75)
	case 12:
		v.SetKeyFloat(name, 1.75)
	case 13:
		v.SetKey(name, k)
	case 14:
		v.SetKeyCached(name, k, v.ValueCache())
	case 15:
		v.SetKeyValue(name, dx.NewValue(k))
	case 16:
		v.SetKeyTime(name, time.Unix(1600000000, 0))
	case 17:
		v.SetIndexInt(idx, 7)
	case 18:
		v.SetIndexString(idx, "i")
	case 19:
		v.SetIndexBool(idx, false)
	case 20:
		v.SetIndexDouble(idx, 0.5)
	case 21:
		v.SetIndexFloat(idx, 0.5)
	case 22:
		v.SetIndexValue(idx, dx.NewValue(k))
	case 23:
		v.SetIndex(idx, k)
	case 24:
		v.InsertValue(idx, k)
	case 25:
		v.Append(k)
	case 26:
		v.RemoveKey(name)
	case 27:
		v.RemoveIndex(idx)
	case 28:
		v.ExtractValue(name)
	case 29:
		v.ForcePath(k, name, "deep", "deeper")
	case 30:
		v.CopyFrom(make1(&mv{k: dx.VT_Array, kids: []*mv{{k: dx.VT_Int, i: 1}}}, false), nil)
	case 31:
		v.AddFrom(make1(&mv{k: dx.VT_Object, keys: []string{"added"}, kids: []*mv{{k: dx.VT_Int, i: 1}}}, false), nil)
	case 32:
		v.MergeWith(make1(&mv{k: dx.VT_Object, keys: []string{"added", name}, kids: []*mv{{k: dx.VT_Int, i: 1}, {k: dx.VT_NULL}}}, false), nil)
	case 33:
		v.SetTime(time.Unix(1500000000, 0))
	case 34:
		v.SetDelphiTime(2000.5)
	case 35:
		v.SetValue("std")
	case 36:
		v.SetKeyvalue(name, map[string]interface{}{"q": 1}, nil)
	case 37:
		v.SetIndexvalue(idx, []interface{}{1, "x", true}, nil)
	case 38:
		v.SetIndexTime(idx, time.Unix(1500000000, 0))
	case 39:
		v.SetIndexCached(idx, k, v.ValueCache())
	}
	return fmt.Sprintf("op %d name %q idx %d kind %d", op, name, idx, k)
}

var docOpt = func() *genOpt {
	o := *allOpt
	o.key = func(r *rand.Rand) string {
		if r.Intn(3) == 0 {
			return anyStr(r)
		}
		return keyPool[r.Intn(len(keyPool))]
	}
	return &o
}()

// jsonOnly: a tree that a JSON text can hold.
func jsonOpt() *genOpt {
	return &genOpt{str: jsonStr, key: jsonStr}
}

func noDoubles(m *mv) {
	if m.k == dx.VT_Double {
		*m = mv{k: dx.VT_Int, i: 42}
	}
	for _, c := range m.kids {
		noDoubles(c)
	}
}

func isDateText(s string) bool { return strings.Contains(s, "Date(") }

// anyDoc makes a document in one of the ways a user gets one.
func anyDoc(r *rand.Rand, depth int) (*dx.DxValue, string) {
	m := genTree(r, docOpt, depth)
	how := r.Intn(6)
	switch how {
	case 0, 1:
		return make1(m, how == 1), fmt.Sprintf("built(cached=%v) %s", how == 1, m)
	case 2:
		v, err := dx.NewValueFromMsgPack(mpEnc(m), r.Intn(2) == 0, false)
		if err != nil {
			fail("%v", err)
		}
		return v, "msgpack " + m.String()
	case 3:
		m = genTree(r, jsonOpt(), depth)
		noDoubles(m)
		t := jsonText(m, r)
		v, err := dx.NewValueFromJson([]byte(t), r.Intn(2) == 0, false)
		if err != nil {
			fail("%v", err)
		}
		return v, "json " + t
	case 4:
		if m.k != dx.VT_Object {
			m = genObj(r, docOpt, depth, 3)
		}
		stripNul(m)
		v, err := dx.NewValueFromBson(bsonEnc(m), r.Intn(2) == 0, false)
		if err != nil {
			fail("%v", err)
		}
		return v, "bson " + m.String()
	}
	return used(r, m, docOpt), "used " + m.String()
}

func stripNul(m *mv) {
	seen := map[string]bool{}
	for i := range m.keys {
		k := strings.ReplaceAll(m.keys[i], "\x00", "")
		for seen[k] {
			k += "x"
		}
		seen[k] = true
		m.keys[i] = k
	}
	if m.k == dx.VT_ExBinary || m.k == dx.VT_NAN || m.k == dx.VT_INF {
		*m = mv{k: dx.VT_Binary, bin: m.bin}
	}
	for _, c := range m.kids {
		stripNul(c)
	}
}

// ---------- C10 ----------

func TestVerif_C10(t *testing.T) {
	q := start(t, "C10")
	defer q.finish()
	jsons := []string{`{"a":1,"b":[1,2,"x"]}`, `[1,{"k":null}]`, `true`, `false`, `null`, `nan`, `inf`, `12`, `1.5`, `"s"`, `{"a":`, `[`, ``}
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		log := []string{}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			k := constKinds[r.Intn(len(constKinds))]
			c := dx.NewValue(k)
			if r.Intn(2) == 0 {
				c = dx.NewCacheValue(k)
			}
			switch r.Intn(4) {
			case 0: // operations on the constant itself
				for i := 0; i < 4; i++ {
					log = append(log, fmt.Sprintf("on constant %d: %s", k, mutateNode(r, c)))
					checkConsts(log[len(log)-1])
				}
			case 1:
				op := r.Intn(8)
				j := jsons[r.Intn(len(jsons))]
				share := r.Intn(2) == 0
				log = append(log, fmt.Sprintf("on constant %d: load %d %q", k, op, j))
				switch op {
				case 0:
					c.LoadFromJson([]byte(j), share)
				case 1:
					c.LoadFromMsgPack(mpEnc(genTree(r, docOpt, 2)), share)
				case 2:
					m := genObj(r, docOpt, 2, 3)
					stripNul(m)
					c.LoadFromBson(bsonEnc(m), share)
				case 3:
					c.LoadFromYaml([]byte("a: 1\nb:\n  - x\n"))
				case 4:
					c.Clear()
				case 5:
					dx.FreeValue(c)
				case 6:
					x := c.Clone(share)
					mutateNode(r, x)
				case 7:
					dx.Unmarshal([]byte(j), c)
				}
				checkConsts(log[len(log)-1])
			case 2: // documents that contain the constants
				v, d := anyDoc(r, 3)
				v2, d2 := anyDoc(r, 3)
				log = append(log, d, d2)
				before := snap(v2)
				for i := 0; i < 6; i++ {
					log = append(log, mutateNode(r, pick(r, v)))
					checkConsts(log[len(log)-1])
				}
				same("another document", snap(v2), before)
			case 3: // loading over documents that contain them
				v := make1(&mv{k: dx.VT_Object, keys: []string{"a", "b"}, kids: []*mv{{k: k}, {k: dx.VT_Array, kids: []*mv{{k: k}, {k: k}}}}}, r.Intn(2) == 0)
				w := make1(&mv{k: dx.VT_Array, kids: []*mv{{k: k}}}, false)
				for i := 0; i < 3; i++ {
					var err error
					var x string
					switch r.Intn(4) {
					case 0:
						x = jsons[r.Intn(len(jsons))]
						err = v.LoadFromJson([]byte(x), r.Intn(2) == 0)
					case 1:
						m := genTree(r, docOpt, 2)
						x = m.String()
						err = v.LoadFromMsgPack(mpEnc(m), r.Intn(2) == 0)
					case 2:
						x = "a: true\nb: null\n"
						err = v.LoadFromYaml([]byte(x))
					case 3:
						v.SetKeyValue("a", dx.NewValue(k))
						v.ForcePath(dx.VT_Int, "a", "x", "y").SetInt(3)
					}
					log = append(log, fmt.Sprintf("load over a document with constant %d: %q %v", k, x, err))
					checkConsts(log[len(log)-1])
				}
				same("another document", snap(w), &mv{k: dx.VT_Array, kids: []*mv{{k: k}}})
			}
		})
	}
}

// ---------- C11 ----------

func nodeSet(v *dx.DxValue) map[*dx.DxValue]bool {
	m := map[*dx.DxValue]bool{}
	nodes(v, func(c *dx.DxValue) {
		if !isConst(c) {
			m[c] = true
		}
	})
	return m
}

func disjoint(what string, a, b *dx.DxValue) {
	s := nodeSet(a)
	for c := range nodeSet(b) {
		if s[c] {
			fail("%s: a node is shared: %s", what, snap(c))
		}
	}
}

// peek: the content without converting raw strings or names first (kinds, counts, extension types).
func peek(v *dx.DxValue) string {
	if v == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d", v.DataType, v.ExtType)
	if v.DataType <= dx.VT_Array {
		for i := 0; i < v.Count(); i++ {
			sb.WriteString("(" + peek(v.ValueByIndex(i)) + ")")
		}
	}
	return sb.String()
}

func TestVerif_C11(t *testing.T) {
	q := start(t, "C11")
	defer q.finish()
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		log := []string{}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			v, d := anyDoc(r, 4)
			log = append(log, d)
			if !isConst(v) && (v.DataType == dx.VT_Binary) && r.Intn(2) == 0 {
				v.ExtType = byte(r.Intn(20))
			}
			if r.Intn(2) == 0 { // part of the names read before
				snap(v)
			}
			p := peek(v)
			var c *dx.DxValue
			switch r.Intn(3) {
			case 0:
				c = v.Clone(false)
				log = append(log, "Clone(false)")
			case 1:
				c = v.Clone(true)
				log = append(log, "Clone(true)")
			case 2:
				c, d = anyDoc(r, 3)
				for isConst(c) {
					c, d = anyDoc(r, 3)
				}
				log = append(log, "CopyFrom into "+d)
				c.CopyFrom(v, nil)
			}
			if p2 := peek(c); p2 != p {
				fail("kinds and extension types of the copy: %s against %s", p2, p)
			}
			before := snap(v)
			same("the copy", snap(c), before)
			disjoint("original and copy", v, c)
			a, b := v, c
			if r.Intn(2) == 0 {
				a, b = c, v
			}
			for i := 0; i < 5; i++ {
				x := pick(r, a)
				if (x.DataType == dx.VT_Binary || x.DataType == dx.VT_ExBinary) && r.Intn(2) == 0 {
					for j := range x.Binary() {
						x.Binary()[j] ^= 0xff
					}
					log = append(log, "bytes flipped")
				} else {
					log = append(log, mutateNode(r, x))
				}
				same("the other value", snap(b), before)
			}
			if r.Intn(4) == 0 {
				dx.FreeValue(a)
				y, _ := anyDoc(r, 3)
				same("the other value after freeing", snap(b), before)
				_ = y
			}
		})
	}
}

// ---------- C14 ----------

func TestVerif_C14(t *testing.T) {
	q := start(t, "C14")
	defer q.finish()
	for n := 0; n < 200 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		log := []string{}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			type doc struct {
				v *dx.DxValue
				m *mv
			}
			var docs []*doc
			check := func() {
				seen := map[*dx.DxValue]int{}
				for i, d := range docs {
					same(fmt.Sprintf("document %d", i), snap(d.v), d.m)
					nodes(d.v, func(c *dx.DxValue) {
						if isConst(c) {
							return
						}
						if j, ok := seen[c]; ok {
							fail("documents %d and %d share a node %s", j, i, snap(c))
						}
						seen[c] = i
					})
				}
			}
			clean := func(c *dx.DxValue, k dx.ValueType) {
				if c.DataType != k {
					fail("a new node has kind %d, %d asked for", c.DataType, k)
				}
				if isConst(c) {
					return
				}
				if c.ExtType != 0 || c.Count() != 0 || len(c.Binary()) != 0 || c.BinExtType() != 0 {
					fail("a new node of kind %d is not clean: %+v", k, c)
				}
				switch k {
				case dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime:
					if c.Double() != 0 || c.Int() != 0 || c.Float() != 0 || math.Signbit(c.Double()) {
						fail("a new node of kind %d has number %v", k, c.Double())
					}
				case dx.VT_String:
					if c.String() != "" {
						fail("a new string node holds %q", c.String())
					}
				}
				// nothing hides behind another kind either
				c.Reset(dx.VT_Double)
				if math.Float64bits(c.Double()) != 0 {
					fail("a new node of kind %d keeps number bits %x", k, math.Float64bits(c.Double()))
				}
				c.Reset(k)
			}
			for step := 0; step < 14; step++ {
				op := r.Intn(9)
				if len(docs) == 0 {
					op = r.Intn(3)
				}
				switch op {
				case 0: // new cached value
					k := allKinds[r.Intn(len(allKinds))]
					v := dx.NewCacheValue(k)
					log = append(log, fmt.Sprintf("NewCacheValue(%d)", k))
					clean(v, k)
					m := genTree(r, docOpt, 3)
					for m.k != dx.VT_Object && m.k != dx.VT_Array {
						m = genTree(r, docOpt, 3)
					}
					if isConst(v) {
						v = dx.NewCacheValue(m.k)
					}
					fill(v, m)
					log = append(log, "filled with "+m.String())
					docs = append(docs, &doc{v, m})
				case 1: // decoded with a cache
					m := genTree(r, docOpt, 3)
					v, err := dx.NewValueFromMsgPack(mpEnc(m), true, r.Intn(2) == 0)
					if err != nil {
						fail("%v", err)
					}
					log = append(log, "decoded "+m.String())
					docs = append(docs, &doc{v, snap(v)})
				case 2:
					m := genTree(r, jsonOpt(), 3)
					noDoubles(m)
					v, err := dx.NewValueFromJson([]byte(jsonText(m, r)), true, r.Intn(2) == 0)
					if err != nil {
						fail("%v", err)
					}
					log = append(log, "from JSON "+m.String())
					docs = append(docs, &doc{v, snap(v)})
				case 3: // free one
					i := r.Intn(len(docs))
					log = append(log, fmt.Sprintf("free %d", i))
					if !isConst(docs[i].v) {
						dx.FreeValue(docs[i].v)
					}
					docs = append(docs[:i], docs[i+1:]...)
				case 4: // clear and use again
					d := docs[r.Intn(len(docs))]
					if isConst(d.v) {
						break
					}
					d.v.Clear()
					if d.v.Count() != 0 {
						fail("a cleared value has %d entries", d.v.Count())
					}
					d.m = genTree(r, docOpt, 3)
					if d.m.k != dx.VT_Object && d.m.k != dx.VT_Array {
						d.m = &mv{k: dx.VT_Array, kids: []*mv{d.m}}
					}
					fill(d.v, d.m)
					log = append(log, "clear, fill with "+d.m.String())
				case 5: // load over
					d := docs[r.Intn(len(docs))]
					if isConst(d.v) {
						break
					}
					m := genTree(r, docOpt, 3)
					if err := d.v.LoadFromMsgPack(mpEnc(m), r.Intn(2) == 0); err != nil {
						fail("%v", err)
					}
					log = append(log, "load over with "+m.String())
					d.m = m
				case 6: // grow one
					d := docs[r.Intn(len(docs))]
					if d.m.k != dx.VT_Object {
						break
					}
					for i := r.Intn(20); i >= 0; i-- {
						k := allKinds[r.Intn(9)]
						name := newKey(d.m, "g")
						c := d.v.SetKey(name, k)
						clean(c, k)
						x := genTree(r, docOpt, 2)
						for x.k >= dx.VT_NULL {
							x = genTree(r, docOpt, 2)
						}
						fill(c, x)
						d.m.keys = append(d.m.keys, name)
						d.m.kids = append(d.m.kids, x)
					}
					log = append(log, "grow")
				case 7: // clone with a cache
					d := docs[r.Intn(len(docs))]
					log = append(log, "clone")
					docs = append(docs, &doc{d.v.Clone(true), clone(d.m)})
				case 8: // change one
					d := docs[r.Intn(len(docs))]
					log = append(log, "mutate "+mutateNode(r, pick(r, d.v)))
					d.m = snap(d.v)
				}
				check()
			}
			for _, d := range docs {
				if !isConst(d.v) {
					dx.FreeValue(d.v)
				}
			}
		})
	}
}

// ---------- C15 ----------

func TestVerif_C15(t *testing.T) {
	q := start(t, "C15")
	defer q.finish()
	yamls := []string{"a: text\nb:\n  - one\n  - two\nc: 'quoted'\n", "- x\n- y: 1\n  z: text\n", "k: &anc\n  n: name\nj: *anc\n", "a: \"esc\\n\"\nb: plain # comment\n", "key: |\n  block\n  text\n"}
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		var in []byte
		kind := r.Intn(5)
		load := r.Intn(3) == 0
		cached := r.Intn(2) == 0
		share := r.Intn(3) == 0
		var desc string
		m := genTree(r, docOpt, 3)
		switch kind {
		case 0:
			in = mpEnc(m)
		case 1:
			m = genTree(r, jsonOpt(), 3)
			in = []byte(jsonText(m, r))
		case 2:
			m = genObj(r, docOpt, 3, r.Intn(6))
			stripNul(m)
			in = bsonEnc(m)
		case 3:
			in = []byte(yamls[r.Intn(len(yamls))])
			share = false
		case 4:
		}
		if r.Intn(8) == 0 && kind < 4 {
			in = mutate(r, in)
		}
		desc = fmt.Sprintf("format %d load=%v cached=%v share=%v %q", kind, load, cached, share, in)
		q.try(func() string { return desc }, func() {
			if kind == 4 {
				b := []byte(anyStr(r))
				keep := append([]byte{}, b...)
				k := []dx.ValueType{dx.VT_Binary, dx.VT_ExBinary}[r.Intn(2)]
				v := dx.NewValue(k)
				if k == dx.VT_ExBinary {
					v.SetExtType(3)
				}
				if r.Intn(2) == 0 {
					v.SetBinary([]byte("earlier content"), true)
				}
				if sh := []byte("a slice that is shared"); k == dx.VT_Binary && r.Intn(2) == 0 {
					v.SetBinary(sh[:5], false)
					v.SetBinary(b, true)
					if string(sh) != "a slice that is shared" {
						fail("setting a copy writes into the slice shared before: %q", sh)
					}
				}
				v.SetBinary(b, true)
				desc = fmt.Sprintf("SetBinary(%q,true) on kind %d", keep, k)
				for i := range b {
					b[i] ^= 0x55
				}
				if !bytes.Equal(v.Binary(), keep) {
					fail("the binary follows the caller's slice: %q, was set to %q", v.Binary(), keep)
				}
				x := v.Binary()
				for i := range x {
					x[i] = 'w'
				}
				for i := range b {
					if b[i] != keep[i]^0x55 {
						fail("the value writes into the caller's slice")
					}
				}
				return
			}
			buf := append(make([]byte, 0, len(in)+32), in...)
			tailB := buf[len(in):cap(buf)]
			for i := range tailB {
				tailB[i] = 0xA5
			}
			dec := func(b []byte) (*dx.DxValue, error) {
				if load {
					v := dx.NewValue(dx.VT_Object)
					v.SetKeyString("old", "old")
					var err error
					switch kind {
					case 0:
						err = v.LoadFromMsgPack(b, share)
					case 1:
						err = v.LoadFromJson(b, share)
					case 2:
						err = v.LoadFromBson(b, share)
					case 3:
						err = v.LoadFromYaml(b)
					}
					return v, err
				}
				switch kind {
				case 0:
					return dx.NewValueFromMsgPack(b, cached, share)
				case 1:
					return dx.NewValueFromJson(b, cached, share)
				case 2:
					return dx.NewValueFromBson(b, cached, share)
				}
				return dx.NewValueFromYaml(b, cached)
			}
			ref, err := dec(append([]byte{}, in...))
			want := snap(ref)
			v, err2 := dec(buf)
			if (err == nil) != (err2 == nil) {
				fail("decoding the same bytes twice: %v and %v", err, err2)
			}
			intact := func(when string) {
				if !bytes.Equal(buf, in) {
					fail("%s changed the input buffer: %q, was %q", when, buf, in)
				}
				for _, c := range tailB {
					if c != 0xA5 {
						fail("%s wrote behind the input", when)
					}
				}
			}
			intact("decoding")
			if err != nil {
				return
			}
			if share {
				same("shared value", snap(v), want)
				intact("reading the value")
				return
			}
			if r.Intn(2) == 0 {
				same("value", snap(v), want)
				intact("reading the value")
			}
			for i := range buf {
				buf[i] = byte(r.Intn(256))
			}
			same("the value after the caller reused the buffer", snap(v), want)
		})
	}
}

// ---------- C16 ----------

func TestVerif_C16(t *testing.T) {
	q := start(t, "C16")
	defer q.finish()
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		log := []string{}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			var v *dx.DxValue
			var d string
			for {
				v, d = anyDoc(r, 3)
				if v != nil {
					break
				}
			}
			log = append(log, d)
			ref := v.Clone(false)
			if r.Intn(2) == 0 && v.DataType != dx.VT_RawString {
				nodes(v, func(*dx.DxValue) {})
			}
			style := dx.JsonEscapeStyle(r.Intn(3))
			escDT := r.Intn(2) == 0
			var encs = []struct {
				n string
				f func(v *dx.DxValue, b []byte) []byte
			}{
				{"Value2Json", func(v *dx.DxValue, b []byte) []byte { return dx.Value2Json(v, style, escDT, b) }},
				{"Value2FormatJson", func(v *dx.DxValue, b []byte) []byte { return dx.Value2FormatJson(v, style, escDT, b) }},
				{"Value2MsgPack", func(v *dx.DxValue, b []byte) []byte { return dx.Value2MsgPack(v, b) }},
				{"ToMsgPack", func(v *dx.DxValue, b []byte) []byte { return v.ToMsgPack(b) }},
				{"ToJson", func(v *dx.DxValue, b []byte) []byte { return v.ToJson(escDT, style, escDT, b) }},
			}
			if v.DataType == dx.VT_Object {
				encs = append(encs, struct {
					n string
					f func(v *dx.DxValue, b []byte) []byte
				}{"Value2Bson", func(v *dx.DxValue, b []byte) []byte {
					x, err := dx.Value2Bson(v, b)
					if err != nil {
						fail("%v", err)
					}
					return x
				}}, struct {
					n string
					f func(v *dx.DxValue, b []byte) []byte
				}{"ToBson", func(v *dx.DxValue, b []byte) []byte { return v.ToBson(b) }})
			}
			k0 := peek(v)
			for i := 0; i < 3; i++ {
				e := encs[r.Intn(len(encs))]
				pre := []byte(anyStr(r))
				spare := []int{0, 1, 3, 4, 5, 8, 16, 64, 1024, 100000}[r.Intn(10)]
				log = append(log, fmt.Sprintf("%s style %d into %q with %d spare", e.n, style, pre, spare))
				buf := append(make([]byte, 0, len(pre)+spare), pre...)
				out := e.f(v, buf)
				if len(out) < len(pre) || !bytes.Equal(out[:len(pre)], pre) {
					fail("%s does not keep the caller's bytes: %q", e.n, out)
				}
				if !bytes.Equal(buf, pre) {
					fail("%s overwrote the caller's bytes: %q", e.n, buf)
				}
				alone := e.f(v, nil)
				if !bytes.Equal(out[len(pre):], alone) {
					fail("%s appends %q, alone it gives %q", e.n, out[len(pre):], alone)
				}
				again := e.f(v, nil)
				if !bytes.Equal(alone, again) {
					fail("%s gives %q the second time, %q the first", e.n, again, alone)
				}
				if k := peek(v); k != k0 {
					fail("%s changed kinds: %s, was %s", e.n, k, k0)
				}
			}
			same("the value after encoding", snap(v), snap(ref))
		})
	}
}

// ---------- C17 ----------

func posBits(f float64) bool { return int64(math.Float64bits(f)) > 0 }

func TestVerif_C17(t *testing.T) {
	q := start(t, "C17")
	defer q.finish()
	strs := []string{"", "0", "1", "-1", "42", "-17", "007", "12345", "true", "TRUE", "True", "false", "x", "1.5", "-2.25", "0.5", "+3", "abc", "12x", "2020-01-02 03:04:05", "2020-01-02T03:04:05Z", "2020/01/02 03:04:05", "1h2m", "999999999999999999", "9223372036854775807", "-9223372036854775808", " ", "é"}
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		log := []string{}
		q.try(func() string { return strings.Join(log, "; ") }, func() {
			m := genTree(r, docOpt, 2)
			if r.Intn(4) == 0 {
				m = &mv{k: dx.VT_String, s: strs[r.Intn(len(strs))]}
			}
			if r.Intn(8) == 0 {
				m = &mv{k: dx.VT_DateTime, f: f64Edges[r.Intn(len(f64Edges))]}
			}
			if r.Intn(10) == 0 {
				m = &mv{k: constKinds[r.Intn(5)]}
			}
			v := used(r, m, docOpt)
			log = append(log, m.String())
			// getters are total and convert as documented
			gi, gd, gf, gb := v.Int(), v.Double(), v.Float(), v.Bool()
			v.DateTime()
			v.GoTime()
			v.Duration(5)
			v.Count()
			v.Type()
			bin := v.Binary()
			if v.BinLen() != len(bin) {
				fail("BinLen %d, Binary has %d bytes", v.BinLen(), len(bin))
			}
			switch m.k {
			case dx.VT_Int:
				if gi != m.i || gd != float64(m.i) || gf != float32(m.i) || gb != (m.i > 0) || v.String() != strconv.FormatInt(m.i, 10) {
					fail("getters of an integer: %d %v %v %v %q", gi, gd, gf, gb, v.String())
				}
				if v.Duration(5) != time.Duration(m.i) {
					fail("Duration of an integer")
				}
			case dx.VT_Double, dx.VT_DateTime:
				if math.Float64bits(gd) != math.Float64bits(m.f) || gb != posBits(m.f) {
					fail("getters of a double: %v %v", gd, gb)
				}
				if math.Float32bits(gf) != math.Float32bits(float32(m.f)) && m.f == m.f {
					fail("Float of a double: %v", gf)
				}
				if math.Abs(m.f) < 1e18 && gi != int64(m.f) {
					fail("Int of a double: %d", gi)
				}
				if m.k == dx.VT_Double && v.String() != strconv.FormatFloat(m.f, 'f', -1, 64) {
					fail("String of a double: %s", v.String())
				}
			case dx.VT_Float:
				f := float32(m.f)
				if math.Float32bits(gf) != math.Float32bits(f) || gd != float64(f) || gb != (f > 0) {
					fail("getters of a float: %v %v %v", gf, gd, gb)
				}
				if math.Abs(m.f) < 1e18 && gi != int64(f) {
					fail("Int of a float: %d", gi)
				}
			case dx.VT_True:
				if gi != 1 || gd != 1 || gf != 1 || !gb || v.String() != "true" {
					fail("getters of true")
				}
			case dx.VT_False:
				if gi != 0 || gd != 0 || gf != 0 || gb || v.String() != "false" {
					fail("getters of false")
				}
			case dx.VT_String:
				if gb != strings.EqualFold(m.s, "true") || v.String() != m.s {
					fail("getters of text: %v %q", gb, v.String())
				}
				if x, err := strconv.ParseInt(m.s, 10, 64); err == nil && !strings.ContainsAny(m.s, "+_") {
					if gi != x || math.Abs(gd-float64(x)) > math.Abs(float64(x))*1e-15 {
						fail("text %q as a number: %d %v", m.s, gi, gd)
					}
				}
				if x, err := strconv.ParseFloat(m.s, 64); err == nil && !strings.ContainsAny(m.s, "+_xXnNiIpP ") && len(m.s) < 12 {
					if !closeTo(gd, x) {
						fail("text %q as a double: %v", m.s, gd)
					}
				}
			default:
				if gi != 0 || gd != 0 || gf != 0 || gb {
					fail("getters of kind %d: %d %v %v %v", m.k, gi, gd, gf, gb)
				}
			}
			if m.k == dx.VT_Binary || m.k == dx.VT_ExBinary {
				if !bytes.Equal(bin, m.bin) || v.BinExtType() != m.ext {
					fail("binary %q type %d", bin, v.BinExtType())
				}
			} else if bin != nil {
				fail("kind %d has binary content", m.k)
			}
			if m.k != dx.VT_Object && m.k != dx.VT_Array {
				v.String()
			}
			if v.DataType != m.k {
				fail("reading changed the kind to %d", v.DataType)
			}
			// setters
			if !isConst(v) {
				for i := 0; i < 3; i++ {
					x := genScalar(r, docOpt)
					switch x.k {
					case dx.VT_Int:
						v.SetInt(x.i)
						if v.DataType != dx.VT_Int || v.Int() != x.i {
							fail("SetInt(%d) reads %d", x.i, v.Int())
						}
					case dx.VT_Float:
						v.SetFloat(float32(x.f))
						if v.DataType != dx.VT_Float || math.Float32bits(v.Float()) != math.Float32bits(float32(x.f)) {
							fail("SetFloat(%v) reads %v", x.f, v.Float())
						}
					case dx.VT_Double:
						date := v.DataType == dx.VT_DateTime
						v.SetDouble(x.f)
						if v.DataType != dx.VT_Double && !(date && v.DataType == dx.VT_DateTime) || math.Float64bits(v.Double()) != math.Float64bits(x.f) {
							fail("SetDouble(%v) reads %v", x.f, v.Double())
						}
					case dx.VT_String:
						v.SetString(x.s)
						if v.DataType != dx.VT_String || v.String() != x.s {
							fail("SetString(%q) reads %q", x.s, v.String())
						}
					case dx.VT_True, dx.VT_False:
						v.SetBool(x.k == dx.VT_True)
						if v.DataType != x.k || v.Bool() != (x.k == dx.VT_True) {
							fail("SetBool reads %v", v.Bool())
						}
					case dx.VT_Binary:
						v.Reset(dx.VT_Binary)
						v.SetBinary([]byte("longer than what follows, perhaps"), true)
						v.SetBinary(x.bin, r.Intn(2) == 0)
						if !bytes.Equal(v.Binary(), x.bin) || v.BinLen() != len(x.bin) {
							fail("SetBinary(%q) reads %q", x.bin, v.Binary())
						}
					case dx.VT_ExBinary:
						v.Reset(dx.VT_ExBinary)
						v.SetExtType(x.ext)
						v.SetBinary(x.bin, r.Intn(2) == 0)
						if !bytes.Equal(v.Binary(), x.bin) || v.BinExtType() != x.ext || v.BinLen() != len(x.bin) {
							fail("extension %d %q reads %d %q", x.ext, x.bin, v.BinExtType(), v.Binary())
						}
						v.SetExtType(x.ext ^ 1)
						v.SetBinary([]byte("second"), true)
						if string(v.Binary()) != "second" || v.BinExtType() != x.ext^1 {
							fail("extension set again reads %d %q", v.BinExtType(), v.Binary())
						}
					}
					if x.k == dx.VT_Int || x.k == dx.VT_Float || x.k == dx.VT_String {
						v.SetDelphiTime(DxCommonLib.TDateTime(1234.5))
						if v.DataType != dx.VT_DateTime || v.Double() != 1234.5 || v.DateTime() != 1234.5 {
							fail("SetDelphiTime reads %v", v.DateTime())
						}
					}
				}
			}
			// defaults
			o := make1(genObj(r, docOpt, 2, 4), r.Intn(2) == 0)
			if r.Intn(3) == 0 {
				o = make1(genTree(r, docOpt, 2), false)
			}
			name := "surely not there"
			now := time.Unix(1234567890, 0)
			if o.AsInt(name, 7) != 7 || o.AsInt64(name, 8) != 8 || o.AsString(name, "d") != "d" || !o.AsBool(name, true) || o.AsBool(name, false) || o.AsDouble(name, 2.5) != 2.5 || o.AsFloat(name, 1.5) != 1.5 || o.AsDateTime(name, 3.5) != 3.5 || o.AsDuration(9, name) != 9 || !o.TimeByName(name, now).Equal(now) {
				fail("a default by name is not returned from %s", snap(o))
			}
			if o.IntByName(name, 7) != 7 || o.StringByName(name, "d") != "d" || !o.BoolByName(name, true) || o.DoubleByName(name, 2.5) != 2.5 || o.FloatByName(name, 1.5) != 1.5 || o.DurationByName(9, name) != 9 {
				fail("a default by name is not returned from %s", snap(o))
			}
			if o.IntByPath(7, name, "x") != 7 || o.StringByPath("d", name, "x") != "d" || !o.BoolByPath(true, name, "x") || o.DoubleByPath(2.5, name, "x") != 2.5 || o.FloatByPath(1.5, name, "x") != 1.5 || o.DateTimeByPath(3.5, name, "x") != 3.5 || o.DurationByPath(9, name, "x") != 9 || !o.GoTimeByPath(now, name, "x").Equal(now) {
				fail("a default by path is not returned from %s", snap(o))
			}
			for _, i := range []int{-1, o.Count(), o.Count() + 5, math.MaxInt64, math.MinInt64} {
				if o.IntByIndex(i, 7) != 7 || o.StringByIndex(i, "d") != "d" || !o.BoolByIndex(i, true) || o.DoubleByIndex(i, 2.5) != 2.5 || o.FloatByIndex(i, 1.5) != 1.5 {
					fail("a default by index %d is not returned from %s", i, snap(o))
				}
			}
			for i := 0; i < o.Count(); i++ {
				k, c := o.Items(i)
				ci, cd, cf, cb, cs := c.Int(), c.Double(), c.Float(), c.Bool(), ""
				if c.DataType > dx.VT_Array {
					cs = c.String()
					if o.StringByIndex(i, "?") != cs {
						fail("StringByIndex(%d)", i)
					}
				}
				if o.IntByIndex(i, -9) != int(ci) || math.Float64bits(o.DoubleByIndex(i, -9)) != math.Float64bits(cd) || math.Float32bits(o.FloatByIndex(i, -9)) != math.Float32bits(cf) || o.BoolByIndex(i, !cb) != cb {
					fail("by index %d of %s", i, snap(o))
				}
				if o.DataType == dx.VT_Object {
					if o.AsInt(k, -9) != int(ci) || math.Float64bits(o.AsDouble(k, -9)) != math.Float64bits(cd) || math.Float32bits(o.AsFloat(k, -9)) != math.Float32bits(cf) || o.AsBool(k, !cb) != cb || o.AsInt64(k, -9) != ci {
						fail("by name %q of %s", k, snap(o))
					}
					if c.DataType > dx.VT_Array && o.AsString(k, "?") != cs {
						fail("AsString(%q)", k)
					}
				}
			}
		})
	}
}

// ---------- C18 ----------

func TestVerif_C18(t *testing.T) {
	q := start(t, "C18")
	defer q.finish()
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		var in []byte
		kind := r.Intn(3)
		switch kind {
		case 0:
			in = mpEnc(genTree(r, docOpt, 3))
			if r.Intn(8) == 0 {
				in = junk(r, 1+r.Intn(20), []byte{0x80, 0x90, 0xa0, 0xc0, 0xd4, 0xde, 0xca, 0xcf, 0x01, 0xff})
			}
		case 1:
			m := genTree(r, jsonOpt(), 3)
			in = []byte(jsonText(m, r))
			if r.Intn(6) == 0 {
				in = append(append([]byte(" \n"), in...), " \t\n"...)
			}
			if r.Intn(10) == 0 {
				in = append(in, "x]"[r.Intn(2)])
			}
		case 2:
			m := genObj(r, docOpt, 3, r.Intn(6))
			stripNul(m)
			in = bsonEnc(m)
		}
		if r.Intn(4) == 0 {
			in = mutate(r, in)
		}
		if len(bytes.TrimSpace(in)) == 0 {
			continue
		}
		share := r.Intn(2) == 0
		desc := ""
		q.try(func() string { return desc }, func() {
			v, d := anyDoc(r, 3)
			for isConst(v) {
				v, d = anyDoc(r, 3)
			}
			if r.Intn(3) == 0 && v.DataType == dx.VT_Binary {
				v.ExtType = 5
			}
			desc = fmt.Sprintf("format %d share=%v %q over %s", kind, share, in, d)
			var ref *dx.DxValue
			var err, err2 error
			switch kind {
			case 0:
				ref, err = dx.NewValueFromMsgPack(append([]byte{}, in...), false, share)
				err2 = v.LoadFromMsgPack(append([]byte{}, in...), share)
			case 1:
				ref, err = dx.NewValueFromJson(append([]byte{}, in...), false, share)
				err2 = v.LoadFromJson(append([]byte{}, in...), share)
			case 2:
				ref, err = dx.NewValueFromBson(append([]byte{}, in...), false, share)
				err2 = v.LoadFromBson(append([]byte{}, in...), share)
			}
			if (err == nil) != (err2 == nil) {
				fail("a new value gives error %v, loading gives %v", err, err2)
			}
			if err != nil {
				return
			}
			if p1, p2 := normKinds(peek(ref)), normKinds(peek(v)); p1 != p2 {
				fail("kinds and extension types: %s loaded, %s new", p2, p1)
			}
			same("loaded value", snap(v), snap(ref))
		})
	}
}

func normKinds(s string) string { return strings.ReplaceAll(s, "3/", "2/") }

// ---------- C20 ----------

func TestVerif_C20(t *testing.T) {
	q := start(t, "C20")
	defer q.finish()
	for n := 0; n < 300 || q.left(); n++ {
		r := rand.New(rand.NewSource(q.r.Int63()))
		bits := uint64(intEdges[r.Intn(len(intEdges))])
		if r.Intn(2) == 0 {
			bits = r.Uint64() >> uint(r.Intn(64))
		}
		f := f64Edges[r.Intn(len(f64Edges))]
		if r.Intn(2) == 0 {
			f = math.Float64frombits(r.Uint64())
		}
		if f != f {
			f = 1
		}
		s := anyStr(r)
		bl := r.Intn(2) == 0
		bs := []byte(anyStr(r))
		i, u := int(bits), uint(bits)
		i8, u8, i16, u16, i32, u32, i64, u64 := int8(bits), uint8(bits), int16(bits), uint16(bits), int32(bits), uint32(bits), int64(bits), bits
		f32 := float32(f)
		wi := func(x int64) *mv { return &mv{k: dx.VT_Int, i: x} }
		wb := &mv{k: dx.VT_False}
		if bl {
			wb = &mv{k: dx.VT_True}
		}
		cases := []struct {
			v    interface{}
			want *mv
			back interface{}
			eq   func(p interface{}) bool
		}{
			{i, wi(int64(i)), new(int), func(p interface{}) bool { return *p.(*int) == i }},
			{&i, wi(int64(i)), new(int), func(p interface{}) bool { return *p.(*int) == i }},
			{u, wi(int64(u)), new(uint), func(p interface{}) bool { return *p.(*uint) == u }},
			{&u, wi(int64(u)), new(uint), func(p interface{}) bool { return *p.(*uint) == u }},
			{i8, wi(int64(i8)), new(int8), func(p interface{}) bool { return *p.(*int8) == i8 }},
			{&i8, wi(int64(i8)), new(int8), func(p interface{}) bool { return *p.(*int8) == i8 }},
			{u8, wi(int64(u8)), new(uint8), func(p interface{}) bool { return *p.(*uint8) == u8 }},
			{&u8, wi(int64(u8)), new(uint8), func(p interface{}) bool { return *p.(*uint8) == u8 }},
			{i16, wi(int64(i16)), new(int16), func(p interface{}) bool { return *p.(*int16) == i16 }},
			{&i16, wi(int64(i16)), new(int16), func(p interface{}) bool { return *p.(*int16) == i16 }},
			{u16, wi(int64(u16)), new(uint16), func(p interface{}) bool { return *p.(*uint16) == u16 }},
			{&u16, wi(int64(u16)), new(uint16), func(p interface{}) bool { return *p.(*uint16) == u16 }},
			{i32, wi(int64(i32)), new(int32), func(p interface{}) bool { return *p.(*int32) == i32 }},
			{&i32, wi(int64(i32)), new(int32), func(p interface{}) bool { return *p.(*int32) == i32 }},
			{u32, wi(int64(u32)), new(uint32), func(p interface{}) bool { return *p.(*uint32) == u32 }},
			{&u32, wi(int64(u32)), new(uint32), func(p interface{}) bool { return *p.(*uint32) == u32 }},
			{i64, wi(i64), new(int64), func(p interface{}) bool { return *p.(*int64) == i64 }},
			{&i64, wi(i64), new(int64), func(p interface{}) bool { return *p.(*int64) == i64 }},
			{u64, wi(int64(u64)), new(uint64), func(p interface{}) bool { return *p.(*uint64) == u64 }},
			{&u64, wi(int64(u64)), new(uint64), func(p interface{}) bool { return *p.(*uint64) == u64 }},
			{f32, &mv{k: dx.VT_Float, f: float64(f32)}, new(float32), func(p interface{}) bool { return *p.(*float32) == f32 }},
			{&f32, &mv{k: dx.VT_Float, f: float64(f32)}, new(float32), func(p interface{}) bool { return *p.(*float32) == f32 }},
			{f, &mv{k: dx.VT_Double, f: f}, new(float64), func(p interface{}) bool { return *p.(*float64) == f }},
			{&f, &mv{k: dx.VT_Double, f: f}, new(float64), func(p interface{}) bool { return *p.(*float64) == f }},
			{s, &mv{k: dx.VT_String, s: s}, new(string), func(p interface{}) bool { return *p.(*string) == s }},
			{&s, &mv{k: dx.VT_String, s: s}, new(string), func(p interface{}) bool { return *p.(*string) == s }},
			{bl, wb, new(bool), func(p interface{}) bool { return *p.(*bool) == bl }},
			{&bl, wb, new(bool), func(p interface{}) bool { return *p.(*bool) == bl }},
			{bs, &mv{k: dx.VT_Binary, bin: bs}, new([]byte), func(p interface{}) bool { return bytes.Equal(*p.(*[]byte), bs) }},
			{&bs, &mv{k: dx.VT_Binary, bin: bs}, new([]byte), func(p interface{}) bool { return bytes.Equal(*p.(*[]byte), bs) }},
		}
		c := cases[r.Intn(len(cases))]
		where := r.Intn(5)
		desc := fmt.Sprintf("%T %v way %d", c.v, c.want, where)
		q.try(func() string { return desc }, func() {
			var v *dx.DxValue
			date := false
			switch where {
			case 0:
				for {
					v, _ = anyDoc(r, 2)
					if !isConst(v) {
						break
					}
				}
				date = v.DataType == dx.VT_DateTime
				v.SetValue(c.v)
			case 1:
				v = dx.NewValueFrom(c.v, r.Intn(2) == 0)
			case 2:
				o := make1(genObj(r, docOpt, 1, 3), r.Intn(2) == 0)
				name := keyPool[r.Intn(len(keyPool))]
				if o.Count() > 0 && r.Intn(2) == 0 {
					name = o.KeyNameByIndex(r.Intn(o.Count()))
				}
				var cache *dx.ValueCache
				if r.Intn(2) == 0 {
					cache = o.ValueCache()
				}
				o.SetKeyvalue(name, c.v, cache)
				v = o.ValueByName(name)
			case 3:
				a := make1(&mv{k: dx.VT_Array, kids: []*mv{genScalar(r, docOpt), genScalar(r, docOpt)}}, r.Intn(2) == 0)
				i := r.Intn(3)
				a.SetIndexvalue(i, c.v, nil)
				v = a.ValueByIndex(i)
			case 4:
				v = dx.NewValue(dx.VT_Array)
				v.SetIndexvalue(0, c.v, v.ValueCache())
				v = v.ValueByIndex(0)
			}
			want := c.want
			if date && want.k == dx.VT_Double {
				want = &mv{k: dx.VT_DateTime, f: want.f}
			}
			same("stored", snap(v), want)
			if !v.ToStdValue(c.back, false) || !c.eq(c.back) {
				fail("reading it back gives %v", c.back)
			}
			if want.k == dx.VT_Int {
				var a8 int8
				var b16 uint16
				var c32 int32
				v.ToStdValue(&a8, false)
				v.ToStdValue(&b16, true)
				v.ToStdValue(&c32, false)
				if a8 != int8(want.i) || b16 != uint16(want.i) || c32 != int32(want.i) {
					fail("narrower: %d %d %d of %d", a8, b16, c32, want.i)
				}
			}
			if want.k == dx.VT_Binary && len(bs) > 0 {
				keep := append([]byte{}, bs...)
				bs[0] ^= 0xff
				if !bytes.Equal(v.Binary(), keep) {
					fail("the stored bytes follow the caller's slice")
				}
				bs[0] ^= 0xff
			}
		})
	}
}

var _ = utf8.ValidString
