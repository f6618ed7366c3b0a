package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"
)

func init() { suites["adccodec"] = suiteAdcCodec }

func adcDump(o interface{}) interface{} {
	v := reflect.ValueOf(o)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	d := dumpValue(v)
	if m, ok := d.(M); ok && v.Type() == reflect.TypeOf(adcCustom{}) {
		if v.Field(5).Int() == 0 && v.Field(6).String() == "" {
			delete(m, "X")
			delete(m, "Y")
		}
	}
	return d
}

func adcEncode(o interface{}, buf *bytes.Buffer) error {
	if m, ok := o.(adc.Message); ok {
		return adc.Marshal(buf, m)
	}
	return o.(adc.Marshaler).MarshalADC(buf)
}

// adcMarshal encodes a value (given as a pointer) twice: alone and after other data, as a pointer and as a value.
func adcMarshal(o interface{}, prefix []byte) M {
	out := M{"st": "ok", "wire": B{}, "wire2": B{}, "before": adcDump(o), "after": []int{}}
	p := call(func() {
		buf := bytes.NewBuffer(nil)
		err := adcEncode(o, buf)
		buf2 := bytes.NewBuffer(cp(prefix))
		var err2 error
		if _, ok := o.(*adc.RawMessage); ok {
			err2 = adcEncode(o, buf2)
		} else {
			err2 = adcEncode(reflect.ValueOf(o).Elem().Interface(), buf2)
		}
		if (err == nil) != (err2 == nil) || !bytes.HasPrefix(buf2.Bytes(), prefix) {
			out["st"] = "differ"
			return
		}
		if err != nil {
			out["st"] = "err"
			return
		}
		out["wire"] = cp(buf.Bytes())
		out["wire2"] = cp(buf2.Bytes()[len(prefix):])
		if m, ok := o.(adc.Message); ok {
			if b := adc.MustMarshal(m); len(b) != buf.Len() {
				out["st"] = "differ"
			}
		}
	})
	if p != "" {
		out["st"] = "panic"
		out["text"] = p
	}
	out["after"] = adcDump(o)
	return out
}

func adcDecode(t string, body []byte) M {
	out := M{"st": "ok", "f": []int{}}
	in := cp(body)
	p := call(func() {
		o := adcNew[t]()
		var err error
		if u, ok := o.(adc.Unmarshaler); ok {
			err = u.UnmarshalADC(in)
			if m, ok := o.(adc.Message); ok {
				// both ways
				o2 := adcNew[t]()
				err2 := adc.Unmarshal(in, o2)
				if (err2 == nil) != (err == nil) || err == nil && !reflect.DeepEqual(o2, o) {
					out["st"] = "differ"
					return
				}
				_ = m
			}
		} else {
			err = adc.Unmarshal(in, o)
		}
		if err != nil {
			out["st"] = "err"
			return
		}
		for i := range in {
			in[i] = '#'
		}
		// what the caller keeps of the value must not change when it is decoded into again; pointers
		// and embedded messages belong to the value
		kept := o
		if t != "UserInfoMod" && t != "Fields" && t != "Custom" {
			kept = keepCopy(o)
		}
		_ = call(func() {
			if kept == o {
				return
			}
			again := [][]byte{siblingParams(body), sibling(body)}
			if t == "Supported" || t == "ModFeatures" {
				again = again[1:] // a set is updated in place
			}
			for _, b := range again {
				if u, ok := o.(adc.Unmarshaler); ok {
					_ = u.UnmarshalADC(b)
				} else {
					_ = adc.Unmarshal(b, o)
				}
			}
		})
		churn()
		out["f"] = adcDump(kept)
	})
	if p != "" {
		out["st"] = "panic"
		out["text"] = p
	}
	return out
}

// siblingParams makes a parameter list of the same names with other values.
func siblingParams(b []byte) []byte {
	parts := bytes.Split(b, []byte(" "))
	for i, p := range parts {
		if len(p) > 2 {
			parts[i] = append(cp(p[:2]), sibling(p[2:])...)
		}
	}
	return bytes.Join(parts, []byte(" "))
}

// adcDecodeUsed decodes into a message that has values already.
func adcDecodeUsed(t string, body []byte, o interface{}) M {
	out := M{"st": "ok", "was": adcDump(o), "f": []int{}}
	p := call(func() {
		if err := adc.Unmarshal(cp(body), o); err != nil {
			out["st"] = "err"
			return
		}
		out["f"] = adcDump(o)
	})
	if p != "" {
		out["st"], out["text"] = "panic", p
	}
	return out
}

func adcTypeName(m adc.Message) string {
	v := reflect.TypeOf(m)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v == reflect.TypeOf(adc.RawMessage{}) {
		return "Raw"
	}
	return v.Name()
}

func adcByCommand(cmd adc.MsgType, body []byte) M {
	out := M{"st": "ok", "t": "", "f": []int{}}
	in := cp(body)
	p := call(func() {
		m, err := adc.UnmarshalMessage(cmd, in)
		if err != nil {
			out["st"] = "err"
			return
		}
		for i := range in {
			in[i] = '#'
		}
		churn()
		out["t"], out["f"] = adcTypeName(m), adcDump(m)
	})
	if p != "" {
		out["st"] = "panic"
		out["text"] = p
	}
	return out
}

var adcNone = M{"st": "none", "f": []int{}, "t": ""}

func (r *Run) adcReg(t string, body []byte) M {
	o, ok := adcNew[t]().(adc.Message)
	if !ok || t == "HubInfo" || t == "UserInfoMod" || t == "Custom" {
		return adcNone
	}
	return adcByCommand(o.Cmd(), body)
}

func (r *Run) adcRound(id interface{}, t string, o interface{}, prefix []byte) {
	r.Count("rt_"+t, 1)
	c := M{"id": id, "k": "rt", "t": t, "f": adcDump(o), "dec": adcNone, "reg": adcNone}
	enc := M{}
	ok := guarded(func() {
		enc = adcMarshal(o, prefix)
		if enc["st"] == "ok" && t != "AddFeatures" {
			c["dec"] = adcDecode(t, enc["wire"].(B))
			c["reg"] = r.adcReg(t, enc["wire"].(B))
		}
	})
	if !ok {
		c["enc"], c["dec"] = M{"st": "hang", "wire": B{}, "wire2": B{}, "before": []int{}, "after": []int{}}, adcNone
		r.halt()
	} else {
		c["enc"] = enc
	}
	r.Emit(c)
}

func (r *Run) adcBody(id interface{}, t string, body []byte) {
	r.Count("body_"+t, 1)
	c := M{"id": id, "k": "body", "t": t, "body": cp(body), "reg": adcNone, "dec2": adcNone,
		"used": M{"st": "none", "was": []int{}, "f": []int{}}}
	var dec, enc M
	dec2 := adcNone
	if r.Profile == "C15" || r.Deep {
		if _, ok := adcNew[t]().(adc.Message); ok {
			c["used"] = adcDecodeUsed(t, body, (&gen{Rand: r.Rng(len(body))}).adcValue(t))
		}
	}
	ok := guarded(func() {
		dec = adcDecode(t, body)
		c["reg"] = r.adcReg(t, body)
		enc = M{"st": "none", "wire": B{}, "wire2": B{}, "before": []int{}, "after": []int{}}
		if dec["st"] == "ok" {
			o := adcNew[t]()
			var err error
			if u, ok := o.(adc.Unmarshaler); ok {
				err = u.UnmarshalADC(cp(body))
			} else {
				err = adc.Unmarshal(cp(body), o)
			}
			if err != nil {
				dec["st"] = "differ"
				return
			}
			enc = adcMarshal(o, []byte("a b "))
			if enc["st"] == "ok" {
				dec2 = adcDecode(t, enc["wire"].(B))
			}
		}
	})
	if !ok {
		dec, enc, dec2 = M{"st": "hang", "f": []int{}}, M{"st": "none", "wire": B{}, "wire2": B{}, "before": []int{}, "after": []int{}}, adcNone
		r.halt()
	}
	c["dec"], c["enc"], c["dec2"] = dec, enc, dec2
	r.Emit(c)
}

// parameter lists as other software sends them, and other interesting ones
var adcBodies = map[string][]string{
	"ChatMessage":       {"", "hi", "hi\\sall ME1", "a PMAAAB TS12", "a ME0", "a ME", "a ME2", "a MEyes", "ME1 ME1", "a PM", "a PMAAA", "a b c", "a ME1 ME1", "a TS1.0", "a TS1e3", "a TSx", "a  ME1 ", "PMAAAA", "a XXyy ME1"},
	"RevConnectRequest": {"", "ADC/1.0", "ADC/1.0 123", "ADC/1.0 123 XX1", "ADC/1.0 "},
	"ConnectRequest":    {"", "ADC/1.0 3000", "ADC/1.0 3000 12345", "ADC/1.0 x 12345", "ADC/1.0  12345", "ADC/1.0 30.00 1", "ADC/1.0 30.5 1"},
	"GetInfoRequest":    {"", "file TTH/ABC", "file", "file a\\sb XX"},
	"GetRequest":        {"file TTH/A 0 -1", "file TTH/A 0 -1 ZL1", "list / 0 -1 RE1", "list / 0 -1 RE1 ZL1", "list / 0 -1 ZL1 RE1", "file a 0 -1 ZL0", "file a 0 -1 ZL2", "file a 0 -1 ZL", "file a 0 -1 ", "file a 0", "file a x 1", "file a 1 x", "file a 1.0 2", "", "file  0 1", "file a  1", "file a 9223372036854775808 1"},
	"GetResponse":       {"file TTH/A 0 100 ZL1", "file TTH/A 0 100", "blom / 0 4096"},
	"SIDAssign":         {"AAAA", "AAA", "AAAAA", "", "AA A", "aaaa"},
	"UserCommand":       {"", "a/b TTx CT3", "a\\sb/c RM1", "x SP1", "/ TT", "a CO1 CO1", "a TT\\\\n CT15"},
	"GetPassword":       {"", "AA", "ABCD", "A", "AAA", "AAAA", "AAAAA", "AAAAAA", "AAAAAAA", "AAAAAAAA", "aa", "A=", "AA======", "AB", "A1", "A\r", "AA\nA", "AA A"},
	"Password":          {"", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN1", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNR", "lwpnacqdbzryxw3vhjvcj64qbznghohhhzwclnq", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN="},
	"Disconnect":        {"AAAA", "AAAB MSbye\\snow TL-1 IDAAAC", "AAAA IDAA", "AAA", "", "AAAA RDadc://x:1 DI1", "AAAA IDAAAA IDAAAB", "AAAA MSx MSy"},
	"SearchRequest":     {"", "ANa ANb NOc TO1", "TRLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "TRLWP", "TR", "AN", "AN AN", "GE100 LE5 TY1", "GR7 RXmp3 RXogg EXavi", "TO1 TO2", "TYx", "ANa b NO\\s ANc"},
	"SearchResult":      {"", "FNa/b\\sc SI100 SL3 TO1 TRLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "SI SL", "SI1e3", "SIx"},
	"UserInfo": {"", "IDLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ NIuser SS1 SF2 VE1 SL1 FS1 HN1 HR0 HO0 SUTCP4,UDP4", "ID", "IDAA", "SU", "SUTCP4", "SUTCP4,", "SUTCP", "SUADC0 SUTCP4", "NIa NIb",
		"SS1.0 SF2e3 U4412", "AW1 CT5 DE", "PDLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "PD", "SUTCP4,UDP4 IDLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ IDLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "KPSHA256/A EAx RFy TOz ASu", "AS1 US100 DSx"},
	"HubInfo":     {"NIhub VE1 DEdesc CT32", "HHadc://x:1 WSw NEn OWo UC1 SS2 SF3 MS4 XS5 ML6 XL7 MC8 UP9 XU10 XR11 XO12", "UCx", ""},
	"UserInfoMod": {"", "NIa", "NI", "N", "NIa  SSb", "NIa ", "NI\\s\\n\\\\ NIx SS1"},
	"Supported":   {"", "ADBASE ADTIGR", "ADBASE RMTIGR", "ADBAS", "ADBASEX", "AD", "RMBASE RMBASE", "ADBASE ADBASE", "BASE ADTIGR", "RMBASE ADTIGR RMUCMD ADUCM0", "ADB\\sE", "AD\\s\\s\\s\\s"},
	"Status":      {"", "000", "000 ", "0", "5 x", "140 no\\sway", "142", "1 2", "240 a b c", "x y", "-1", "-140 x", "140  x", "1000 x", "99999999999 x", "9223372036854775808 x", "+140 x", "140.0 x", "1e2 x", "143 a FCabc"},
	"ZOn":         {"", "x"},
	"ZOff":        {"", "x y"},
	"Custom":      {"a 1", "a", "a 2", "a  x", "a 0 PSx PI5 IL1 IL2 IL DIa/b ON1 FEBASE RQ1", "a 0 PS PI", "a 0 ILx", "a 0 JH32767 JW2147483647 KH65535 KW4294967295 KQ18446744073709551615 KP1 LH-1 LH0", "a 0 JH32768", "a 0 JH-32769", "a 0 JW2147483648", "a 0 JW-2147483648", "a 0 JH1e5", "a 0 JW16777217.0", "a 0 KH65536", "a 0 KH-1", "a 0 KW4294967296", "a 0 KQ18446744073709551616", "a 0 KU-0", "a 0 KH", "a 0 KP", "a 0 KPx", "a 0 LH32768", "a 0 KH+1", "a 0 LH", "a 1 ON", "a 1 RQ", "a 1 FE", "a 1 DI", "a 1 TH"},
}

func suiteAdcCodec(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				K string          `json:"k"`
				T string          `json:"t"`
				F json.RawMessage `json:"f"`
				B B               `json:"b"`
			}
			must(json.Unmarshal(l, &s))
			if s.K == "body" {
				r.adcBody([]interface{}{"model", i}, s.T, s.B)
				continue
			}
			o := adcNew[s.T]()
			loadJSON(reflect.ValueOf(o).Elem(), s.F)
			r.adcRound([]interface{}{"model", i}, s.T, o, []byte("BMSG AAAA "))
		}
		return
	}
	n := 0
	for _, t := range adcMessages {
		for _, b := range adcBodies[t] {
			n++
			r.adcBody([]interface{}{"variant", n}, t, []byte(b))
		}
	}
	// one parameter of each name with each value
	if r.Deep || r.Profile == "C15" {
		for _, t := range []string{"ChatMessage", "Disconnect", "SearchRequest", "SearchResult", "UserInfo", "UserCommand", "Custom"} {
			pos := map[string]string{"ChatMessage": "a ", "Disconnect": "AAAA ", "UserCommand": "a/b ", "Custom": "a 1 "}[t]
			st := reflect.TypeOf(adcNew[t]()).Elem()
			for i := 0; i < st.NumField(); i++ {
				tag := st.Field(i).Tag.Get("adc")
				if len(tag) < 2 {
					continue
				}
				for j, v := range adcBadVals {
					if !r.Deep && (i+j)%3 != int(r.Seed)%3 {
						continue
					}
					n++
					r.adcBody([]interface{}{"value", n}, t, []byte(pos+tag[:2]+v))
				}
			}
		}
	}
	if r.Deep || r.Profile == "C14" {
		// every value of every message, one at a time
		for _, ts := range [][]string{adcMessages, adcValues} {
			for ti, t := range ts {
				for k := 0; k < 3; k++ {
					seed := ti*3 + k
					mk := func() reflect.Value {
						g := &gen{Rand: r.Rng(seed)}
						return reflect.ValueOf(g.adcValue(t))
					}
					variants(mk, func(path string, v reflect.Value) {
						n++
						r.adcRound([]interface{}{"field", n}, t, v.Interface(), nil)
					})
					if k != 0 && !r.Deep {
						continue
					}
					runeVariants(mk, r.Deep || t == "ChatMessage" || t == "String", func(path string, v reflect.Value) {
						n++
						r.adcRound([]interface{}{"char", n}, t, v.Interface(), nil)
					})
				}
			}
		}
	}
	if r.Deep || r.Profile == "C15" {
		// parameter lists with one byte changed
		const other = "x0 \\sn:,/-+.\t\r\x00=AT1a\xff"
		for ti, t := range adcMessages {
			bodies := append([]string{}, adcBodies[t]...)
			for k := 0; k < 3; k++ {
				g := &gen{Rand: r.Rng(ti*3 + k), plain: true}
				buf := bytes.NewBuffer(nil)
				if call(func() { want(adcEncode(g.adcValue(t), buf)) }) == "" && buf.Len() < 200 {
					bodies = append(bodies, buf.String())
				}
			}
			for bi, b := range bodies {
				byteEdits(b, ti+bi+int(r.Seed), r.Deep, other, func(b string) {
					n++
					r.adcBody([]interface{}{"byte", n}, t, []byte(b))
				})
			}
		}
	}
	if r.Deep || r.Profile == "C15" {
		// parameter lists of which one or two are unusual
		max := 1
		if r.Deep {
			max = 2
		}
		for ti, t := range adcMessages {
			for k := 0; k < 4; k++ {
				g := &gen{Rand: r.Rng(ti*4 + k), plain: true}
				buf := bytes.NewBuffer(nil)
				if call(func() { want(adcEncode(g.adcValue(t), buf)) }) != "" {
					continue
				}
				var slots [][]string
				for j, p := range strings.Split(buf.String(), " ") {
					if j > 7 {
						break
					}
					c := p
					if len(c) > 2 {
						c = c[:2]
					}
					alts := []string{p, "\x00", "", c, p + "x", p + " " + p, strings.ToLower(p), "\\s" + p, p + "\\s", p + "\\", c + "0", c + "-1", c + "x", "ZZ1", p + " ZZ1", c + " " + p}
					for i := range alts {
						if alts[i] != "\x00" {
							alts[i] = " " + alts[i]
						} else {
							alts[i] = "" // left out
						}
					}
					slots = append(slots, alts)
				}
				slotBodies(slots, max, func(b string) {
					n++
					r.adcBody([]interface{}{"parts", n}, t, []byte(strings.TrimPrefix(b, " ")))
				})
			}
		}
	}
	r.each(r.adcCodecRandom)
}

func (r *Run) adcCodecRandom(i int) {
	rng := r.Rng(i)
	g := &gen{Rand: rng, wild: chance(rng, 0.2)}
	t := adcMessages[rng.Intn(len(adcMessages))]
	if chance(rng, 0.2) {
		t = adcValues[rng.Intn(len(adcValues))]
	}
	o := g.adcValue(t)
	if chance(rng, 0.5) != (r.Profile == "C15" || r.Profile == "C13") || t == "AddFeatures" {
		r.adcRound(i, t, o, randBytes(rng, rng.Intn(9), "a \\\n"))
		return
	}
	var body []byte
	buf := bytes.NewBuffer(nil)
	if p := call(func() { want(adcEncode(o, buf)) }); p != "" {
		r.adcRound(i, t, o, nil)
		return
	}
	body = buf.Bytes()
	if v := adcBodies[t]; len(v) != 0 && chance(rng, 0.25) {
		body = []byte(v[rng.Intn(len(v))])
	}
	if chance(rng, 0.85) {
		body = g.adcMutate(body)
	}
	if r.Profile == "C13" && chance(rng, 0.3) {
		body = randBytes(rng, rng.Intn(60), "AB 12\\,/sn+-\x00\n")
	}
	r.adcBody(i, t, body)
}
