package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["features"] = suiteFeatures }

type feSet struct {
	regs []interface{}
}

func feReg(o interface{}) M {
	type item struct {
		n  string
		on bool
	}
	var s []item
	l := []B{}
	k := ""
	switch o := o.(type) {
	case adc.ModFeatures:
		k = "mod"
		for n, on := range o {
			s = append(s, item{string(n[:]), on})
		}
	case nmdc.Extensions:
		k = "nm"
		for n := range o {
			s = append(s, item{n, true})
		}
	case adc.ExtFeatures:
		k = "ext"
		for _, n := range o {
			l = append(l, cp(n[:]))
		}
	case nmdc.Supports:
		k = "sup"
		for _, n := range o.Ext {
			l = append(l, S(n))
		}
	}
	sort.Slice(s, func(i, j int) bool { return s[i].n < s[j].n })
	out := []interface{}{}
	for _, x := range s {
		out = append(out, []interface{}{S(x.n), x.on})
	}
	return M{"k": k, "s": out, "l": l}
}

func (f *feSet) dump() []M {
	out := []M{}
	for _, o := range f.regs {
		out = append(out, feReg(o))
	}
	return out
}

func feaOf(n []byte) (f adc.Feature) {
	copy(f[:], n)
	return
}

// do performs one operation on the registers.
func (f *feSet) do(m M) {
	num := func(k string) int {
		if v, ok := m[k].(int); ok {
			return v - 1
		}
		return -1
	}
	a, b := num("a"), num("b")
	name, _ := m["name"].(B)
	add := func(o interface{}) { f.regs = append(f.regs, o) }
	switch m["op"] {
	case "clone":
		if o, ok := f.regs[a].(nmdc.Extensions); ok {
			add(o.Clone())
		} else {
			add(f.regs[a].(adc.ModFeatures).Clone())
		}
	case "setfrom":
		add(f.regs[a].(adc.ModFeatures).SetFrom(f.regs[b].(adc.ModFeatures)))
	case "inter":
		if o, ok := f.regs[a].(nmdc.Extensions); ok {
			add(o.Intersect(f.regs[b].(nmdc.Extensions)))
		} else {
			add(f.regs[a].(adc.ModFeatures).Intersect(f.regs[b].(adc.ModFeatures)))
		}
	case "interlist":
		add(f.regs[a].(nmdc.Extensions).IntersectList(f.regs[b].(nmdc.Supports).Ext))
	case "intersup":
		s1, s2 := f.regs[a].(nmdc.Supports), f.regs[b].(nmdc.Supports)
		add(s1.Intersect(&s2))
	case "query":
		switch o := f.regs[a].(type) {
		case adc.ModFeatures:
			m["r"] = o.IsSet(feaOf(name))
		case adc.ExtFeatures:
			m["r"] = o.Has(feaOf(name))
		case nmdc.Extensions:
			m["r"] = o.Has(string(name))
		case nmdc.Supports:
			r := false
			for _, n := range o.Ext {
				r = r || n == string(name)
			}
			m["r"] = r
		}
	case "list":
		l := []B{}
		switch o := f.regs[a].(type) {
		case adc.ModFeatures:
			if j := o.Join(); j != "" {
				for _, n := range strings.Split(j, ",") {
					l = append(l, S(n))
				}
			}
		case nmdc.Extensions:
			for _, n := range o.List() {
				l = append(l, S(n))
			}
		}
		m["l"] = l
	case "wire":
		buf := bytes.NewBuffer(nil)
		switch o := f.regs[a].(type) {
		case adc.ModFeatures:
			if len(o)%2 == 0 {
				want(o.MarshalADC(buf))
				n := adc.ModFeatures{}
				want(n.UnmarshalADC(buf.Bytes()))
				add(n)
			} else {
				want(adc.Marshal(buf, adc.Supported{Features: o}))
				var n adc.Supported
				want(adc.Unmarshal(buf.Bytes(), &n))
				add(n.Features)
			}
		case adc.ExtFeatures:
			want(o.MarshalADC(buf))
			var n adc.ExtFeatures
			want(n.UnmarshalADC(buf.Bytes()))
			add(n)
		case nmdc.Supports:
			want(nmdc.MarshalTo(nil, buf, &o))
			n, err := nmdc.Unmarshal(nil, buf.Bytes())
			want(err)
			add(*n.(*nmdc.Supports))
		case nmdc.Extensions:
			want((&nmdc.Supports{Ext: o.List()}).MarshalNMDC(nil, buf))
			var n nmdc.Supports
			want(n.UnmarshalNMDC(nil, buf.Bytes()))
			all := make(nmdc.Extensions)
			for _, e := range n.Ext {
				all.Set(e)
			}
			add(all)
		}
	case "put":
		switch o := f.regs[a].(type) {
		case adc.ModFeatures:
			o[feaOf(name)] = m["on"].(bool)
		case nmdc.Extensions:
			o.Set(string(name))
		}
	case "receive":
		buf := bytes.NewBuffer(nil)
		want(f.regs[b].(adc.ModFeatures).MarshalADC(buf))
		o := f.regs[a].(adc.ModFeatures)
		want(o.UnmarshalADC(buf.Bytes()))
		f.regs[a] = o
	}
}

func (f *feSet) kind(i int) string { return feReg(f.regs[i])["k"].(string) }

func (r *Run) feSession(id interface{}, ops func(f *feSet, next func(m M) bool)) {
	r.Session(M{"id": id}, func(e *Events) {
		f := &feSet{}
		ops(f, func(m M) bool {
			r.Count(m["op"].(string), 1)
			m["err"] = ""
			for _, k := range []string{"a", "b"} {
				if m[k] == nil {
					m[k] = 0
				}
			}
			return e.Do(m, func(m M) {
				f.do(m)
				churn()
				m["regs"] = f.dump()
			})
		})
	})
}

func (f *feSet) fresh(rng *rand.Rand) (o interface{}) {
	n := rng.Intn(6)
	names := feaNames
	if chance(rng, 0.4) {
		names = names[:3]
	}
	fea := func() adc.Feature { return feaOf([]byte(names[rng.Intn(len(names))])) }
	ext := func() string {
		x := []string{"NoHello", "NoGetINFO", "TTHSearch", "TTHS", "a", "b", "ZPipe0", "nohello"}
		return x[rng.Intn(len(x))]
	}
	switch rng.Intn(7) {
	case 0, 1, 2:
		if n == 0 && chance(rng, 0.5) {
			return adc.ModFeatures(nil)
		}
		v := adc.ModFeatures{}
		for ; n > 0; n-- {
			v[fea()] = chance(rng, 0.6)
		}
		return v
	case 3:
		v := adc.ExtFeatures{}
		for ; n > 0; n-- {
			v = append(v, fea())
		}
		return v
	case 4, 5:
		v := nmdc.Extensions{}
		for ; n > 0; n-- {
			v.Set(ext())
		}
		return v
	}
	v := nmdc.Supports{}
	for ; n > 0; n-- {
		v.Ext = append(v.Ext, ext())
	}
	return v
}

func (r *Run) feRandom(id int) {
	rng := r.Rng(id)
	r.feSession(id, func(f *feSet, next func(m M) bool) {
		n := 3 + rng.Intn(14)
		for i := 0; i < n; i++ {
			if i < 3 || chance(rng, 0.15) {
				f.regs = append(f.regs, f.fresh(rng))
				if !next(M{"op": "new"}) {
					return
				}
				continue
			}
			a := rng.Intn(len(f.regs))
			k := f.kind(a)
			other := func(k string) int { // a register of this kind
				for t := 0; t < 8; t++ {
					if b := rng.Intn(len(f.regs)); f.kind(b) == k {
						return b + 1
					}
				}
				return 0
			}
			pool := [][]byte{[]byte("BASE"), []byte("TIGR"), []byte("TCP4"), []byte("UDP4"), []byte("base"), {0, 0, 0, 0}}
			if k == "nm" || k == "sup" {
				pool = [][]byte{[]byte("NoHello"), []byte("NoHell"), []byte("TTHSearch"), []byte("a"), []byte("b"), []byte("nohello"), {}}
			}
			m := M{"a": a + 1}
			name := B(pool[rng.Intn(len(pool))])
			switch x := rng.Intn(9); {
			case x == 0 && (k == "mod" || k == "nm"):
				m["op"] = "clone"
			case x == 1 && k == "mod":
				m["op"], m["b"] = "setfrom", other("mod")
			case x <= 2 && (k == "mod" || k == "nm" || k == "sup"):
				m["op"], m["b"] = "inter", other(k)
				if k == "sup" {
					m["op"] = "intersup"
				} else if b := other("sup"); k == "nm" && b != 0 && chance(rng, 0.5) {
					m["op"], m["b"] = "interlist", b
				}
			case x == 3 && (k == "mod" || k == "nm"):
				m["op"] = "list"
			case x == 4:
				m["op"] = "wire"
			case x == 5 && (k == "mod" || k == "nm") && len(name) != 0 && name[0] != 0:
				if f.regs[a] = denil(f.regs[a]); true {
					m["op"], m["name"], m["on"] = "put", name, k == "nm" || chance(rng, 0.5)
				}
			case x == 6 && k == "mod":
				m["op"], m["b"] = "receive", other("mod")
				f.regs[a] = denil(f.regs[a])
			default:
				m["op"], m["name"] = "query", name
			}
			if v, ok := m["b"].(int); ok && v == 0 {
				m = M{"a": a + 1, "op": "query", "name": name}
			}
			if !next(m) {
				return
			}
		}
	})
}

func denil(o interface{}) interface{} {
	if m, ok := o.(adc.ModFeatures); ok && m == nil {
		return adc.ModFeatures{}
	}
	return o
}

func suiteFeatures(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var sc struct {
				First [][][]interface{} `json:"first"`
				Hist  []struct {
					Op   string `json:"op"`
					A    int    `json:"a"`
					B    int    `json:"b"`
					Name B      `json:"name"`
					On   bool   `json:"on"`
				} `json:"hist"`
			}
			must(json.Unmarshal(l, &sc))
			nm := i%2 == 1
			name := func(b []byte) B {
				n := B("FEA" + string(b))
				return n
			}
			r.feSession([]interface{}{"model", i}, func(f *feSet, next func(m M) bool) {
				for _, s := range sc.First {
					mod, ext := adc.ModFeatures{}, nmdc.Extensions{}
					for _, x := range s {
						n := name([]byte{byte(x[0].([]interface{})[0].(float64))})
						mod[feaOf(n)] = x[1].(bool)
						if x[1].(bool) {
							ext.Set(string(n))
						}
					}
					if nm {
						f.regs = append(f.regs, ext)
					} else {
						f.regs = append(f.regs, mod)
					}
					next(M{"op": "new"})
				}
				for _, h := range sc.Hist {
					m := M{"op": h.Op, "a": h.A, "b": h.B}
					if h.Op == "put" {
						m["name"], m["on"] = name(h.Name), h.On || nm
					}
					if nm && (h.Op == "setfrom" || h.Op == "receive") {
						m["op"] = "inter"
					}
					if !next(m) {
						return
					}
				}
				for a := range f.regs {
					next(M{"op": "list", "a": a + 1})
					for _, n := range []string{"A", "B", "C"} {
						next(M{"op": "query", "a": a + 1, "name": name([]byte(n))})
					}
				}
			})
		}
		return
	}
	r.each(r.feRandom)
}
