package main

import (
	"bytes"
	"encoding/json"
	"reflect"

	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["nmdccodec"] = suiteNmdcCodec }

// marshal encodes a message twice: alone and after other data.
func nmdcMarshal(cs string, m nmdc.Message, prefix []byte) M {
	out := M{"st": "ok", "wire": B{}, "wire2": B{}, "before": dumpNmdc(m)["f"], "after": []int{}}
	p := call(func() {
		w, err := nmdc.Marshal(encOf(cs), m)
		buf := bytes.NewBuffer(cp(prefix))
		err2 := nmdc.MarshalTo(encOf(cs), buf, m)
		if (err == nil) != (err2 == nil) {
			out["st"] = "differ"
			return
		}
		if err != nil {
			out["st"] = "err"
			return
		}
		churn()
		out["wire"] = cp(w)
		if !bytes.HasPrefix(buf.Bytes(), prefix) {
			out["st"] = "differ"
			return
		}
		out["wire2"] = cp(buf.Bytes()[len(prefix):])
	})
	if p != "" {
		out["st"] = "panic"
		out["text"] = p
	}
	out["after"] = dumpNmdc(m)["f"]
	return out
}

// nmdcDecode decodes a message body. It returns the message, which is a copy taken before another
// body was decoded into the same value.
func nmdcDecode(cs string, m nmdc.Message, body []byte) (M, nmdc.Message) {
	kept := m
	out := M{"st": "ok", "m": M{"t": "nil", "f": []int{}}}
	in := cp(body)
	p := call(func() {
		if err := m.UnmarshalNMDC(decOf(cs), in); err != nil {
			out["st"] = "err"
			return
		}
		// the message must not refer to the buffer
		for i := range in {
			in[i] = '#'
		}
		kept = keepCopy(m).(nmdc.Message)
		_ = call(func() { _ = m.UnmarshalNMDC(decOf(cs), sibling(body)) })
		churn()
		out["m"] = dumpNmdc(kept)
	})
	if p != "" {
		out["st"] = "panic"
		out["text"] = p
	}
	return out, kept
}

func nmdcUnmarshal(cs string, wire []byte) M {
	out := M{"st": "ok", "m": M{"t": "nil", "f": []int{}}}
	in := cp(wire)
	p := call(func() {
		m, err := nmdc.Unmarshal(decOf(cs), in)
		if err != nil {
			out["st"] = "err"
			return
		}
		for i := range in {
			in[i] = '#'
		}
		churn()
		out["m"] = dumpNmdc(m)
	})
	if p != "" {
		out["st"] = "panic"
		out["text"] = p
	}
	return out
}

func (r *Run) nmdcRound(id interface{}, cs string, t string, m nmdc.Message, prefix []byte) {
	c := M{"id": id, "k": "rt", "cs": cs, "t": t}
	enc := nmdcMarshal(cs, m, prefix)
	c["f"] = enc["before"]
	c["enc"] = enc
	c["dec"] = M{"st": "none", "m": M{"t": "nil", "f": []int{}}}
	if enc["st"] == "ok" {
		c["dec"] = nmdcUnmarshal(cs, enc["wire"].(B))
		r.Count("decoded_"+c["dec"].(M)["st"].(string), 1)
	}
	r.Count("encoded_"+enc["st"].(string), 1)
	r.Emit(c)
}

func (r *Run) nmdcBody(id interface{}, cs string, t string, dst nmdc.Message, dirty bool, body []byte) {
	c := M{"id": id, "k": "dec", "cs": cs, "t": t, "body": cp(body), "dirty": dirty}
	d, dst := nmdcDecode(cs, dst, body)
	c["dec"] = d
	c["enc"] = M{"st": "none", "wire": B{}, "wire2": B{}, "before": []int{}, "after": []int{}}
	c["dec2"] = M{"st": "none", "m": M{"t": "nil", "f": []int{}}}
	r.Count("body_"+d["st"].(string), 1)
	if d["st"] == "ok" {
		e := nmdcMarshal(cs, dst, nil)
		c["enc"] = e
		if e["st"] == "ok" {
			c["dec2"] = nmdcUnmarshal(cs, e["wire"].(B))
		}
	}
	r.Emit(c)
}

var nmdcTexts = []string{
	"Chat", "Chat", "Chat", "To:", "To:", "MCTo", "MyINFO", "MyINFO", "Hello", "MyNick", "Quit", "HubName", "SetTopic", "HubTopic", "MyPass",
	"Failed", "Error", "OpList", "UserCommand", "Search", "SR", "UserIP", "ConnectToMe", "RevConnectToMe", "ValidateNick", "Kick", "SP", "HubINFO",
}

func suiteNmdcCodec(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				CS string          `json:"cs"`
				T  string          `json:"t"`
				F  json.RawMessage `json:"f"`
			}
			must(json.Unmarshal(l, &s))
			r.nmdcRound([]interface{}{"model", i}, s.CS, s.T, loadNmdc(s.T, s.F), []byte("<a> b|"))
		}
		return
	}
	// variants of other clients, all encodings of ASCII
	n := 0
	for _, t := range nmdcTypes {
		for _, b := range nmdcBodies[t] {
			n++
			r.nmdcBody([]interface{}{"variant", n}, "utf8", t, newNmdc(t), false, []byte(b))
		}
	}
	if r.Deep || r.Profile == "C12" {
		max := 2
		if r.Deep {
			max = 4
		}
		for _, t := range nmdcTypes {
			if toks := nmdcTokens[t]; toks != nil {
				allTokens(toks, max, func(a []string) {
					n++
					r.nmdcBody([]interface{}{"tokens", n}, "utf8", t, newNmdc(t), false, tokenBody(t, a))
				})
			}
		}
	}
	if r.Deep || r.Profile == "C12" {
		// bodies with one byte changed: the other case, left out, twice, something else
		for ti, t := range nmdcTypes {
			for bi, b := range nmdcBodies[t] {
				byteEdits(b, ti+bi, r.Deep, "x0 $?,:-/<>&.|()#\t\r\x05TNSRZ", func(b string) {
					n++
					r.nmdcBody([]interface{}{"byte", n}, "utf8", t, newNmdc(t), false, []byte(b))
				})
			}
		}
	}
	if r.Deep || r.Profile == "C12" {
		// bodies with up to two unusual parts
		for _, t := range nmdcTypes {
			if s := nmdcSlots[t]; s != nil {
				max := 2
				if r.Deep && len(s) < 12 {
					max = 3
				}
				numberBodies(t, func(b string) {
					n++
					r.nmdcBody([]interface{}{"numbers", n}, "utf8", t, newNmdc(t), false, []byte(b))
				})
				slotBodies(s, max, func(b string) {
					n++
					r.nmdcBody([]interface{}{"parts", n}, "utf8", t, newNmdc(t), false, []byte(b))
				})
			}
		}
	}
	if r.Deep || r.Profile == "C10" {
		// every text of every message with every character
		for _, cs := range []string{"utf8", "gbk"} {
			for ti, t := range nmdcTypes {
				if cs != "utf8" && !r.Deep && t != "Chat" {
					continue
				}
				mk := func() reflect.Value {
					g := &gen{Rand: r.Rng(ti), cs: cs, plain: true}
					return reflect.ValueOf(g.msg(t))
				}
				runeVariants(mk, r.Deep || t == "Chat" && cs == "utf8", func(path string, v reflect.Value) {
					n++
					r.nmdcRound([]interface{}{"char", n}, cs, t, v.Interface().(nmdc.Message), nil)
				})
			}
		}
	}
	if r.Deep || r.Profile == "C11" {
		// every value of every message, one at a time
		css := []string{"utf8", "cp1251"}
		if r.Deep {
			css = charsets
		}
		for _, cs := range css {
			for ti, t := range nmdcTypes {
				for k := 0; k < 2; k++ {
					seed := ti*2 + k
					mk := func() reflect.Value {
						g := &gen{Rand: r.Rng(seed), cs: cs, plain: true}
						return reflect.ValueOf(g.msg(t))
					}
					variants(mk, func(path string, v reflect.Value) {
						n++
						r.nmdcRound([]interface{}{"field", n}, cs, t, v.Interface().(nmdc.Message), nil)
					})
				}
			}
		}
	}
	r.each(r.nmdcCodecRandom)
}

func (r *Run) nmdcCodecRandom(i int) {
	rng := r.Rng(i)
	g := &gen{Rand: rng, cs: charsets[rng.Intn(len(charsets))]}
	if chance(rng, 0.5) {
		g.cs = "utf8"
	} else if chance(rng, 0.1) {
		g.cs = "strict"
	}
	t := nmdcTypes[rng.Intn(len(nmdcTypes))]
	if chance(rng, 0.7) {
		t = nmdcRich[rng.Intn(len(nmdcRich))]
	}
	g.wild = chance(rng, 0.3)
	switch r.Profile {
	case "C09": // encodings
		g.cs = charsets[1+rng.Intn(len(charsets)-1)]
		if chance(rng, 0.1) {
			g.cs = "strict"
		}
	case "C10": // text
		t = nmdcTexts[rng.Intn(len(nmdcTexts))]
	case "C18": // lists of extensions
		t = "Supports"
	case "C20": // handshake
		t = []string{"Lock", "Lock", "Lock", "Key"}[rng.Intn(4)]
	}
	m := g.msg(t)
	prefix := []byte{}
	if chance(rng, 0.5) {
		prefix = []byte("$Hello x|<a> b|")
	}
	dec := r.Profile == "C09" && chance(rng, 0.4) || r.Profile == "C12" || r.Profile == "C13"
	if chance(rng, 0.5) == dec && !chance(rng, 0.2) || t == "Raw" {
		r.nmdcRound(i, g.cs, t, m, prefix)
		return
	}
	// bodies close to valid ones
	var body []byte
	if s := nmdcSlots[t]; s != nil && chance(rng, 0.35) {
		body = []byte(g.slotBody(s))
	} else if toks := nmdcTokens[t]; toks != nil && chance(rng, 0.2) {
		a := make([]string, rng.Intn(9))
		for j := range a {
			a[j] = g.one(toks)
		}
		body = tokenBody(t, a)
	} else if v := nmdcBodies[t]; len(v) != 0 && chance(rng, 0.4) {
		body = []byte(v[rng.Intn(len(v))])
	} else {
		buf := bytes.NewBuffer(nil)
		cs := g.cs
		if cs == "strict" {
			cs = "utf8"
		}
		if p := call(func() { _ = m.MarshalNMDC(encOf(cs), buf) }); p != "" {
			return // reported by the other cases
		}
		body = buf.Bytes()
	}
	if chance(rng, 0.6) {
		body = g.mutate(body)
	}
	if r.Profile == "C13" && chance(rng, 0.3) {
		body = randBytes(rng, rng.Intn(60), structural+"\x00")
	}
	dst := newNmdc(t)
	dirty := false
	if chance(rng, 0.3) {
		// the destination has been used before
		g2 := &gen{Rand: rng, cs: g.cs}
		dst, dirty = g2.msg(t), true
	}
	r.nmdcBody(i, g.cs, t, dst, dirty, body)
}
