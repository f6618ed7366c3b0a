package main

import (
	"bytes"
	"encoding/json"
	"strings"

	th "github.com/cxmcc/tiger"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"
)

func init() { suites["ids"] = suiteIds }

// prim is the Tiger primitive, used directly.
func prim(parts ...[]byte) (out tiger.Hash) {
	h := th.New()
	for _, p := range parts {
		_, _ = h.Write(p)
	}
	copy(out[:], h.Sum(nil))
	return
}

type idParser struct {
	how string
	sid bool
	fnc func(t []byte) ([]byte, error)
}

var idParsers = []idParser{
	{"tiger.FromBase32", false, func(t []byte) ([]byte, error) { h := junkHash; err := h.FromBase32(string(t)); return h[:], err }},
	{"tiger.UnmarshalText", false, func(t []byte) ([]byte, error) { h := junkHash; err := h.UnmarshalText(t); return h[:], err }},
	{"tiger.UnmarshalADC", false, func(t []byte) ([]byte, error) { h := junkHash; err := h.UnmarshalADC(t); return h[:], err }},
	{"tiger.UnmarshalBase32", false, func(t []byte) ([]byte, error) { h := junkHash; err := h.UnmarshalBase32(t); return h[:], err }},
	{"tiger.MustParseBase32", false, func(t []byte) (out []byte, err error) {
		err = errUser
		_ = call(func() { h := tiger.MustParseBase32(string(t)); out, err = h[:], nil })
		return
	}},
	{"CID.FromBase32", false, func(t []byte) ([]byte, error) {
		h := types.CID(junkHash)
		err := h.FromBase32(string(t))
		return h[:], err
	}},
	{"CID.UnmarshalText", false, func(t []byte) ([]byte, error) { h := types.CID(junkHash); err := h.UnmarshalText(t); return h[:], err }},
	{"CID.UnmarshalADC", false, func(t []byte) ([]byte, error) { h := types.CID(junkHash); err := h.UnmarshalADC(t); return h[:], err }},
	{"PID.UnmarshalText", false, func(t []byte) ([]byte, error) {
		h := &types.PID{1}
		err := h.UnmarshalText(t)
		return h[:], err
	}},
	{"MustParseCID", false, func(t []byte) (out []byte, err error) {
		err = errUser
		_ = call(func() { h := types.MustParseCID(string(t)); out, err = h[:], nil })
		return
	}},
	{"MustParseCIDP", false, func(t []byte) (out []byte, err error) {
		err = errUser
		_ = call(func() { h := types.MustParseCIDP(string(t)); out, err = h[:], nil })
		return
	}},
	{"SID.UnmarshalADC", true, func(t []byte) ([]byte, error) {
		s := types.SID{1, 2, 3, 4}
		err := s.UnmarshalADC(t)
		return s[:], err
	}},
	{"SIDFromString", true, func(t []byte) (out []byte, err error) {
		err = errUser
		_ = call(func() { s := types.SIDFromString(string(t)); out, err = s[:], nil })
		return
	}},
	{"adc.SID", true, func(t []byte) ([]byte, error) {
		var s adc.SID
		err := s.UnmarshalADC(t)
		return s[:], err
	}},
}

var junkHash = tiger.Hash{1, 2, 3, 250, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 255}

func idParse(p idParser, text []byte) M {
	out := M{"how": p.how, "sid": p.sid, "st": "ok", "v": B{}}
	in := cp(text)
	pan := call(func() {
		v, err := p.fnc(in)
		if err != nil {
			out["st"] = "err"
			return
		}
		for i := range in {
			in[i] = '#'
		}
		churn()
		out["v"] = cp(v)
	})
	if pan != "" {
		out["st"] = "panic"
		out["text"] = pan
	}
	return out
}

func (r *Run) idValue(id interface{}, v tiger.Hash) {
	r.Count("values", 1)
	texts := []M{}
	text := func(how string, fnc func() []byte) {
		m := M{"how": how, "st": "ok", "v": B{}}
		if p := call(func() { b := fnc(); churn(); m["v"] = cp(b) }); p != "" {
			m["st"] = "panic"
		}
		texts = append(texts, m)
	}
	c := types.CID(v)
	text("tiger.Base32", func() []byte { return []byte(v.Base32()) })
	text("tiger.String", func() []byte { return []byte(v.String()) })
	text("tiger.MarshalText", func() []byte { b, err := v.MarshalText(); want(err); return b })
	text("tiger.MarshalADC", func() []byte { buf := bytes.NewBuffer(nil); want(v.MarshalADC(buf)); return buf.Bytes() })
	text("tiger.MarshalBase32", func() []byte { b := make([]byte, tiger.Base32Size); want(v.MarshalBase32(b)); return b })
	text("tiger.MarshalBase32 longer", func() []byte {
		b := bytes.Repeat([]byte{'#'}, tiger.Base32Size+5)
		want(v.MarshalBase32(b))
		if string(b[tiger.Base32Size:]) != "#####" {
			return b
		}
		return b[:tiger.Base32Size]
	})
	text("CID.Base32", func() []byte { return []byte(c.Base32()) })
	text("CID.String", func() []byte { return []byte(c.String()) })
	text("CID.MarshalText", func() []byte { b, err := c.MarshalText(); want(err); return b })
	text("CID.MarshalADC", func() []byte { buf := bytes.NewBuffer(nil); want(c.MarshalADC(buf)); return buf.Bytes() })
	text("CID as JSON", func() []byte {
		b, err := json.Marshal(c)
		want(err)
		return bytes.Trim(b, `"`)
	})
	back := []M{}
	t := []byte(v.Base32())
	for _, p := range idParsers {
		if !p.sid {
			back = append(back, idParse(p, t))
		}
	}
	h, pr := c.Hash(), prim(v[:])
	r.Emit(M{"id": id, "k": "val", "v": cp(v[:]), "texts": texts, "back": back, "hex": S(v.Hex()), "zero": v.IsZero() && c.IsZero(),
		"hash": cp(h[:]), "prim": cp(pr[:])})
}

func (r *Run) idText(id interface{}, t []byte) {
	r.Count("texts", 1)
	res := []M{}
	for _, p := range idParsers {
		m := idParse(p, t)
		res = append(res, m)
		r.Count("parsed_"+m["st"].(string), 1)
	}
	r.Emit(M{"id": id, "k": "text", "t": cp(t), "res": res})
}

func (r *Run) idSid(id interface{}, v uint32) {
	r.Count("sids", 1)
	c := M{"id": id, "k": "sid", "v": v, "st": "ok", "text": B{}, "str": B{}, "wire": B{}}
	if p := call(func() {
		s := types.SIDFromInt(v)
		c["text"], c["str"] = cp(s[:]), S(s.String())
		buf := bytes.NewBuffer(nil)
		want(s.MarshalADC(buf))
		c["wire"] = cp(buf.Bytes())
	}); p != "" {
		c["st"] = "panic"
	}
	r.Emit(c)
}

func suiteIds(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				K string `json:"k"`
				V []int  `json:"v"`
			}
			must(json.Unmarshal(l, &s))
			if s.K == "sid" {
				r.idSid([]interface{}{"model", i}, uint32(s.V[0]))
				continue
			}
			var h tiger.Hash
			for j, x := range s.V {
				h[j] = byte(x)
			}
			r.idValue([]interface{}{"model", i}, h)
		}
		return
	}
	const good = "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ"
	n := 0
	text := func(s string) { n++; r.idText([]interface{}{"text", n}, []byte(s)) }
	for i := 0; i <= 60; i++ {
		text(strings.Repeat("A", i))
		text(strings.Repeat("7", i))
		if i <= len(good) {
			text(good[:i])
		}
	}
	text(good + "=")
	text(good[:38] + "=")
	text(good[:32] + "=======")
	text(strings.ToLower(good))
	for _, c := range "189a=z \n\r-\x00\xff{@[" {
		for _, p := range []int{0, 1, 19, 37, 38} {
			text(good[:p] + string(rune(c)) + good[p+1:])
		}
	}
	text(good[:37] + "\r\n")
	text("A\nA\rA\n" + good[:33])
	text("AAA\n")
	text("A\nAA")
	r.each(r.idsRandom)
}

func (r *Run) idsRandom(i int) {
	rng := r.Rng(i)
	var h tiger.Hash
	rng.Read(h[:])
	switch rng.Intn(4) {
	case 0:
		for j := range h {
			h[j] = byte(pick(rng, 0, 255, 1, 128))
		}
	case 1:
		h = tiger.Hash{}
		h[rng.Intn(24)] = byte(rng.Intn(256))
	}
	switch rng.Intn(3) {
	case 0:
		r.idValue(i, h)
	case 1:
		r.idSid(i, uint32(rng.Intn(1<<20)))
	case 2:
		t := []byte(h.Base32())
		for j := rng.Intn(3); j > 0; j-- {
			switch p := rng.Intn(len(t)); rng.Intn(4) {
			case 0:
				t = append(t[:p], t[p+1:]...)
			case 1:
				t = append(t[:p], append([]byte{"A7b0=\n"[rng.Intn(6)]}, t[p:]...)...)
			case 2:
				t[p] = byte(rng.Intn(256))
			case 3:
				t[p] = "ABQ27az01=\n\r "[rng.Intn(13)]
			}
		}
		if chance(rng, 0.2) {
			t = randBytes(rng, rng.Intn(8), "AB27az")
		}
		r.idText(i, t)
	}
}
