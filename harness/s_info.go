package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["info"] = suiteInfo }

// infoCase fills a case; a panic makes it one of an unknown kind.
func (r *Run) infoCase(c M, fnc func()) {
	r.Count(c["k"].(string), 1)
	if p := call(fnc); p != "" {
		c["k"], c["text"] = "panic", p
	}
	r.Emit(c)
}

func (r *Run) infoStatus(id interface{}, sev, code int, msg string) {
	c := M{"id": id, "k": "sta", "sev": sev, "code": code, "msg": S(msg), "num": S(itoa(code)), "back": []int{}, "text": B{}}
	r.infoCase(c, func() {
		st := adc.Status{Sev: adc.Severity(sev), Code: code, Msg: msg}
		c["ok"], c["rec"] = st.Ok(), st.Recoverable()
		err := st.Err()
		var e adc.Error
		switch {
		case err == nil:
			c["err"] = "none"
		case errors.Is(err, os.ErrNotExist):
			c["err"] = "notexist"
		case errors.As(err, &e):
			c["err"] = "status"
			c["back"] = []interface{}{int(e.Sev), e.Code, S(e.Msg)}
			c["text"] = S(err.Error())
		default:
			c["err"] = "other"
		}
	})
}

func (r *Run) infoGroup(id interface{}, g int, name string) {
	c := M{"id": id, "k": "grp", "g": g, "name": S(name)}
	r.infoCase(c, func() { c["match"] = adc.ExtGroup(g).Matches(name) })
}

func (r *Run) infoNorm(id interface{}, rng *rand.Rand, ap, ve string) {
	c := M{"id": id, "k": "norm", "ap": S(ap), "ve": S(ve)}
	r.infoCase(c, func() {
		g := &gen{Rand: rng}
		u := *g.adcValue("UserInfo").(*adc.UserInfo)
		u.Application, u.Version = ap, ve
		was := u
		u.Normalize()
		c["ap2"], c["ve2"] = S(u.Application), S(u.Version)
		v := u
		v.Normalize()
		c["ap3"], c["ve3"] = S(v.Application), S(v.Version)
		u.Application, u.Version = ap, ve
		c["rest"] = reflect.DeepEqual(u, was)
	})
}

func (r *Run) infoReg(id interface{}, cmd string) {
	c := M{"id": id, "k": "reg", "cmd": S(cmd)}
	r.infoCase(c, func() {
		c["reg"], c["regb"] = nmdc.IsRegistered(cmd), nmdc.IsRegisteredBytes([]byte(cmd))
		m := nmdc.NewMessage(cmd)
		c["typ"] = S(m.Type())
		_, c["raw"] = m.(*nmdc.RawMessage)
		if m2 := nmdc.NewMessage(cmd); reflect.TypeOf(m2) != reflect.TypeOf(m) || reflect.TypeOf(m2).Elem().Size() > 0 && m2 == m {
			panic("not a new message")
		}
	})
}

var infoExts = strings.Fields("ape flac m4a mid mp3 mpc ogg ra wav wma 7z ace arj bz2 gz lha lzh rar tar tz z zip doc docx htm html nfo odf odp ods odt pdf ppt pptx rtf txt xls xlsx xml xps " +
	"app bat cmd com dll exe jar msi ps1 vbs wsf bmp cdr eps gif ico img jpeg jpg png ps psd sfw tga tif webp 3gp asf asx avi divx flv mkv mov mp4 mpeg mpg ogm pxp qt rm rmvb swf vob webm wmv iso c go")

func suiteInfo(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				K    string `json:"k"`
				X    int    `json:"x"`
				Name B      `json:"name"`
			}
			must(json.Unmarshal(l, &s))
			id := []interface{}{"model", i}
			switch s.K {
			case "grp":
				r.infoGroup(id, s.X, string(s.Name))
			case "sta":
				r.infoStatus(id, s.X/100, s.X%100, "some text")
			case "norm":
				r.infoNorm(id, r.Rng(i), "", string(s.Name))
			}
		}
		return
	}
	c := M{"id": "regs", "k": "regs", "list": []B{}}
	r.infoCase(c, func() {
		l := []B{}
		for _, s := range nmdc.RegisteredTypes() {
			l = append(l, S(s))
		}
		c["list"] = l
	})
	names := []string{}
	for n, v := range infoNums {
		names = append(names, n)
		r.Emit(M{"id": n, "k": "num", "name": n, "val": v})
	}
	for n, v := range infoWords {
		names = append(names, n)
		r.Emit(M{"id": n, "k": "word", "name": n, "val": S(v)})
	}
	sort.Strings(names)
	r.Emit(M{"id": "consts", "k": "consts", "list": names})
	for _, e := range infoExts {
		for b := 0; b < 6; b++ {
			r.infoGroup([]interface{}{"ext", e, b}, 1<<uint(b), "a."+e)
		}
		r.infoGroup([]interface{}{"ext", e}, 0, e)
	}
	for c := 0; c < 100; c++ {
		for s := 0; s < 3; s++ {
			r.infoStatus([]interface{}{"status", s, c}, s, c, "text")
		}
	}
	for i, t := range nmdcTypes {
		if t == "Chat" {
			t = ""
		}
		r.infoReg([]interface{}{"type", i}, t)
	}
	for v := 0; v < 256; v++ {
		for b := 0; b < 8; b++ {
			c := M{"id": []interface{}{"bit", v, b}, "k": "bit", "v": v, "bit": b}
			r.infoCase(c, func() {
				c["is"] = nmdc.UserFlag(v).IsSet(nmdc.UserFlag(1 << b))
				if adc.UserType(v).Is(adc.UserType(1<<b)) != c["is"] || adc.ExtGroup(v).Has(adc.ExtGroup(1<<b)) != c["is"] {
					panic("different answers")
				}
			})
		}
	}
	r.each(r.infoRandom)
}

func (r *Run) infoRandom(i int) {
	rng := r.Rng(i)
	g := &gen{Rand: rng, cs: "utf8", wild: chance(rng, 0.1)}
	switch rng.Intn(5) {
	case 0:
		r.infoStatus(i, pick(rng, 0, 1, 2, 2, 3, rng.Intn(10)), pick(rng, 0, 51, 50, 52, 21, rng.Intn(100)), g.text())
	case 1:
		n := infoExts[rng.Intn(len(infoExts))]
		if chance(rng, 0.4) {
			b := []byte(n)
			for j := range b {
				if chance(rng, 0.5) {
					b[j] ^= 0x20 &^ (^b[j] & 0x40 >> 1)
				}
			}
			n = string(b)
		}
		if chance(rng, 0.8) {
			n = pickS(rng, "a.", "a.b.", "dir/x.", ".", "mp3.", "a b.", "x..") + n
		}
		if chance(rng, 0.15) {
			n += pickS(rng, ".", "~", " ", "x", ".bak")
		}
		r.infoGroup(i, pick(rng, 0, 1<<uint(rng.Intn(6)), rng.Intn(64), rng.Intn(256)), n)
	case 2:
		ap := ""
		if chance(rng, 0.2) {
			ap = pickS(rng, "x", "DC ++", g.text())
		}
		r.infoNorm(i, rng, ap, pickS(rng, "", "1.0", "++ 0.868", "a b 1", "App 1.0 ", " 1", "two  3", g.text()))
	case 3:
		name, text := "", g.text()
		if chance(rng, 0.7) {
			name = g.text()
		}
		c := M{"id": i, "k": "chat", "name": S(name), "text": S(text)}
		r.infoCase(c, func() {
			m := nmdc.ChatMessage{Name: name, Text: text}
			c["str"] = S(m.String())
		})
	default:
		t := nmdcTypes[rng.Intn(len(nmdcTypes))]
		switch rng.Intn(4) {
		case 0:
			t = strings.ToLower(t)
		case 1:
			t = t[:rng.Intn(len(t)+1)]
		case 2:
			t += pickS(rng, " ", "x", "$", ":")
		default:
			t = string(randBytes(rng, rng.Intn(6), "ABCabc:$ "))
		}
		if t == "Chat" {
			t = ""
		}
		r.infoReg(i, t)
	}
}
