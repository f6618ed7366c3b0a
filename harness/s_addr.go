package main

import (
	"encoding/json"
	"net/url"
	"strings"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["addr"] = suiteAddr }

func addrParse(parse func(string) (*url.URL, error), s string) M {
	out := M{"st": "ok", "scheme": B{}, "user": []B{}, "host": B{}, "path": B{}, "rawpath": B{}, "query": B{}, "frag": B{}}
	p := call(func() {
		u, err := parse(s)
		if err != nil {
			out["st"] = "err"
			return
		}
		out["scheme"], out["host"], out["path"], out["rawpath"] = S(u.Scheme), S(u.Host), S(u.EscapedPath()), S(u.Path)
		out["query"], out["frag"] = S(u.RawQuery), S(u.EscapedFragment())
		if u.User != nil {
			out["user"] = []B{S(u.User.String())}
		}
	})
	if p != "" {
		out["st"] = "panic"
	}
	return out
}

func addrNorm(norm func(string) (string, error), s string) M {
	out := M{"st": "ok", "text": B{}}
	p := call(func() {
		t, err := norm(s)
		if err != nil {
			out["st"] = "err"
			return
		}
		out["text"] = S(t)
	})
	if p != "" {
		out["st"] = "panic"
	}
	return out
}

func (r *Run) addrCase(id interface{}, text string, model bool) {
	c := M{"id": id, "text": S(text), "model": model}
	one := func(kind string, parse func(string) (*url.URL, error), norm func(string) (string, error)) {
		o := M{"parse": addrParse(parse, text), "norm": addrNorm(norm, text)}
		n := o["norm"].(M)
		o["again"], o["reparse"] = n, o["parse"]
		if n["st"] == "ok" {
			t := string(n["text"].(B))
			o["again"] = addrNorm(norm, t)
			o["reparse"] = addrParse(parse, t)
		}
		r.Count(kind+"_"+n["st"].(string), 1)
		c[kind] = o
	}
	one("dc", dc.ParseAddr, dc.NormalizeAddr)
	one("nmdc", nmdc.ParseAddr, nmdc.NormalizeAddr)
	one("adc", adc.ParseAddr, adc.NormalizeAddr)
	r.Emit(c)
}

func suiteAddr(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				Text B `json:"text"`
			}
			must(json.Unmarshal(l, &s))
			r.addrCase([]interface{}{"model", i}, string(s.Text), true)
		}
		return
	}
	r.each(r.addrRandom)
}

func (r *Run) addrRandom(i int) {
	rng := r.Rng(i)
	word := func() string {
		return pickS(rng, "h", "adc", "adcs", "nmdc", "dchub", "hub.example.com", "adc.hub", "127.0.0.1", "h_b-c", "x~y",
			string(randBytes(rng, 1+rng.Intn(8), "abcdxyzADCHUB0129.-_")))
	}
	esc := func(alpha string) string {
		var b strings.Builder
		for n := rng.Intn(7); n > 0; n-- {
			b.WriteString(pickS(rng, word(), "/", "/", "%2F", "%2f", "%20", "%C3%A9", "%3F", ":", "://", "+", "=", "&", string(alpha[rng.Intn(len(alpha))])))
		}
		return b.String()
	}
	var b strings.Builder
	if chance(rng, 0.7) {
		s := pickS(rng, "dchub", "dchub", "nmdc", "nmdcs", "adc", "adc", "adcs", "http", "adcx", "https", word())
		if chance(rng, 0.2) {
			s = strings.ToUpper(s)
		} else if chance(rng, 0.1) {
			s = strings.Title(s)
		}
		b.WriteString(s + "://")
	}
	if chance(rng, 0.2) {
		b.WriteString(pickS(rng, "u", "adc", "a:b", "u.x:9", word()+":"+word()) + "@")
	}
	b.WriteString(pickS(rng, word(), word(), word(), "[::1]", "[fe80::1]", "[2001:DB8::a]", "[::ffff:10.0.0.1]", "[1:2:3:4:5:6:7:8]", "",
		"[fe80::1%25eth0]", "::1", "1:2:3", "[::1", "é", "%41", "[]"))
	if chance(rng, 0.6) {
		b.WriteString(":" + pickS(rng, "411", "1", "65535", "0", "00411", "1511", "", "99999", "x", "-1", "+1", "4 1", itoa(rng.Intn(65536))))
	}
	if chance(rng, 0.6) {
		b.WriteString("/" + esc("!$'()*,;-._~"))
		if chance(rng, 0.5) {
			b.WriteString(pickS(rng, "/", "//", "%2F/", "/%2F"))
		}
		if chance(rng, 0.1) {
			b.WriteString(pickS(rng, " b/", "é/", "%zz", "%", "<", "[x]"))
		}
	}
	if chance(rng, 0.4) {
		b.WriteString("?" + pickS(rng, "kp=SHA256/ABCDEF", esc("!$'()*,;-._~?"), esc("?/"), ""))
	}
	if chance(rng, 0.2) {
		b.WriteString("#" + esc("!?/"))
	}
	t := b.String()
	if chance(rng, 0.15) && len(t) > 0 {
		p := []byte(t)
		for n := 1 + rng.Intn(2); n > 0; n-- {
			k := rng.Intn(len(p))
			switch rng.Intn(3) {
			case 0:
				p[k] = ":/@?#[]%. \x00aA1\xff"[rng.Intn(15)]
			case 1:
				p = append(p[:k:k], p[k+1:]...)
			case 2:
				p = append(append(p[:k:k], ":/@?#[]"[rng.Intn(7)]), p[k:]...)
			}
			if len(p) == 0 {
				break
			}
		}
		t = string(p)
	}
	r.addrCase(i, t, false)
}
