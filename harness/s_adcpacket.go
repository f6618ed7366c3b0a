package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"
)

func init() { suites["adcpacket"] = suiteAdcPacket }

// apk is a packet as the specification has it.
type apk struct {
	Kind byte
	Src  B
	Dst  B
	Cid  B
	Sel  []interface{}
	Cmd  B
	Set  bool // the message is put in later
}

func (p *apk) m() M {
	sel := p.Sel
	if sel == nil {
		sel = []interface{}{}
	}
	return M{"kind": int(p.Kind), "src": cp(p.Src), "dst": cp(p.Dst), "cid": cp(p.Cid), "sel": sel, "cmd": cp(p.Cmd)}
}

// adcAddr reads the parts of a packet; same tells if its methods agree with its fields.
func adcAddr(p adc.Packet) (M, bool) {
	var a apk
	same := true
	src := func(id adc.SID) {
		a.Src = cp(id[:])
		pp, ok := p.(adc.PeerPacket)
		same = same && ok && pp.Source() == id
	}
	dst := func(id adc.SID) {
		a.Dst = cp(id[:])
		pp, ok := p.(adc.TargetPacket)
		same = same && ok && pp.Target() == id
	}
	var msg adc.Message
	switch p := p.(type) {
	case *adc.InfoPacket:
		a.Kind, msg = 'I', p.Msg
	case *adc.HubPacket:
		a.Kind, msg = 'H', p.Msg
	case *adc.ClientPacket:
		a.Kind, msg = 'C', p.Msg
	case *adc.BroadcastPacket:
		a.Kind, msg = 'B', p.Msg
		src(p.ID)
	case *adc.DirectPacket:
		a.Kind, msg = 'D', p.Msg
		src(p.ID)
		dst(p.To)
	case *adc.EchoPacket:
		a.Kind, msg = 'E', p.Msg
		src(p.ID)
		dst(p.To)
	case *adc.FeaturePacket:
		a.Kind, msg = 'F', p.Msg
		src(p.ID)
		for _, s := range p.Sel {
			a.Sel = append(a.Sel, []interface{}{cp(s.Fea[:]), s.Sel})
		}
	case *adc.UDPPacket:
		a.Kind, msg = 'U', p.Msg
		a.Cid = cp(p.ID[:])
	default:
		panic("unknown packet type")
	}
	if msg == nil || reflect.TypeOf(p.Message()) != reflect.TypeOf(msg) || !reflect.DeepEqual(p.Message(), msg) || p.Kind() != a.Kind {
		same = false
	}
	if msg != nil {
		cmd := msg.Cmd()
		a.Cmd = cp(cmd[:])
	}
	return a.m(), same
}

func adcEncPacket(p adc.Packet, prefix []byte) M {
	out := M{"st": "ok", "line": B{}}
	if e := call(func() {
		buf := bytes.NewBuffer(cp(prefix))
		if err := p.MarshalPacketADC(buf); err != nil {
			out["st"] = "err"
			return
		}
		if !bytes.HasPrefix(buf.Bytes(), prefix) {
			out["st"] = "differ"
			return
		}
		out["line"] = cp(buf.Bytes()[len(prefix):])
	}); e != "" {
		out["st"], out["text"] = "panic", e
	}
	return out
}

func adcMsgDump(m adc.Message) M {
	v := reflect.ValueOf(m)
	d := adcDump(m)
	if v.Kind() != reflect.Ptr {
		d = adcDump2(v)
	}
	t := adcTypeName(m)
	if t == "adcCustom" {
		t = "Custom"
	}
	return M{"st": "ok", "t": t, "f": d}
}

func adcDump2(v reflect.Value) interface{} {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return adcDump(p.Interface())
}

var noMsg = M{"st": "none", "t": "", "f": []int{}}

// adcLine records what is made of a line.
func adcLine(line []byte, types []string, prefix []byte) M {
	c := M{}
	raw := M{"st": "ok", "pk": []int{}, "data": B{}, "same": false}
	again := M{"st": "none", "line": B{}}
	full := M{"msg": noMsg, "pk": []int{}, "same": false, "enc": M{"st": "none", "line": B{}}}
	into := []M{}
	if e := call(func() {
		in := cp(line)
		p, err := adc.DecodePacketRaw(in)
		if err != nil {
			raw["st"] = "err"
			return
		}
		pk, same := adcAddr(p)
		m, ok := p.Message().(*adc.RawMessage)
		raw["pk"], raw["same"] = pk, same && ok
		if ok {
			raw["data"] = cp(m.Data)
		}
		again = adcEncPacket(p, prefix)
		for _, t := range types {
			d := M{"st": "ok", "t": t, "f": []int{}}
			into = append(into, d)
			o := adcNew[t]()
			if e := call(func() {
				if err := p.DecodeMessageTo(o.(adc.Message)); err != nil {
					d["st"] = "err"
					return
				}
				d["f"] = adcDump(o)
			}); e != "" {
				d["st"], d["text"] = "panic", e
			}
		}
		if pk2, same2 := adcAddr(p); !same2 || !reflect.DeepEqual(pk2, pk) {
			raw["st"] = "changed"
		}
		if !bytes.Equal(in, line) {
			raw["st"] = "line changed"
		}
		// the message in place, later
		err1 := p.DecodeMessage()
		_, err2 := adc.DecodePacket(cp(line))
		if (err1 == nil) != (err2 == nil) {
			raw["st"] = "differ"
		}
		if err1 == nil {
			if _, ok := p.Message().(*adc.RawMessage); !ok {
				if err := p.DecodeMessageTo(adcNew["ChatMessage"]().(adc.Message)); err == nil {
					raw["st"] = "decoded twice"
				}
			}
			if err := p.DecodeMessage(); err != nil {
				raw["st"] = "second decode"
			}
		}
		// the payload of a raw packet belongs to the line, the rest does not
		for i := range in {
			in[i] = '#'
		}
		churn()
		if err1 == nil {
			if pk2, _ := adcAddr(p); !reflect.DeepEqual(pk2, pk) {
				raw["st"] = "changed later"
			}
		}
	}); e != "" {
		raw["st"], raw["text"] = "panic", e
	}
	if e := call(func() {
		in := cp(line)
		p, err := adc.DecodePacket(in)
		if err != nil {
			full["msg"] = M{"st": "err", "t": "", "f": []int{}}
			return
		}
		for i := range in {
			in[i] = '#'
		}
		churn()
		pk, same := adcAddr(p)
		full["pk"], full["same"] = pk, same
		full["msg"] = adcMsgDump(p.Message())
		full["enc"] = adcEncPacket(p, prefix)
	}); e != "" {
		full["msg"] = M{"st": "panic", "t": "", "f": []int{}, "text": e}
	}
	// the rest of the line, decoded into a packet that has been used before
	used := M{"st": "none", "pk": []int{}, "data": B{}, "same": false}
	if len(line) > 5 && line[4] == ' ' && bytes.IndexByte([]byte(adcKinds), line[0]) >= 0 {
		used["st"] = "ok"
		if e := call(func() {
			p := adcUsedPacket(line[0])
			var name adc.MsgType
			copy(name[:], line[1:4])
			if err := p.UnmarshalPacketADC(name, cp(line[5:])); err != nil {
				used["st"] = "err"
				return
			}
			pk, same := adcAddr(p)
			m, ok := p.Message().(*adc.RawMessage)
			used["pk"], used["same"] = pk, same && ok
			if ok {
				used["data"] = cp(m.Data)
			}
		}); e != "" {
			used["st"], used["text"] = "panic", e
		}
	}
	c["raw"], c["again"], c["full"], c["into"], c["used"] = raw, again, full, into, used
	return c
}

// adcUsedPacket is a packet that holds something already.
func adcUsedPacket(kind byte) adc.Packet {
	a := &apk{Kind: kind, Src: B("OLDS"), Dst: B("OLDT"), Cid: bytes.Repeat([]byte{0xa5}, 24)}
	a.Sel = append(a.Sel, []interface{}{B("OLD1"), true}, []interface{}{B("OLD2"), false}, []interface{}{B("OLD3"), true})
	return adcMakePacket(a, &adc.RawMessage{Type: adc.MsgType{'O', 'L', 'D'}, Data: []byte("old data")})
}

func (r *Run) adcLineCase(id interface{}, line []byte, types []string, prefix []byte) {
	r.Count("line", 1)
	var c M
	if !guarded(func() { c = adcLine(line, types, prefix) }) {
		c = M{"raw": M{"st": "hang"}, "again": M{"st": "none", "line": B{}}, "into": []M{}, "used": M{"st": "none"},
			"full": M{"msg": M{"st": "hang", "t": "", "f": []int{}}, "enc": M{"st": "none", "line": B{}}}}
		r.halt()
	}
	r.Count("line_"+c["raw"].(M)["st"].(string), 1)
	c["id"], c["k"], c["line"] = id, "line", cp(line)
	r.Emit(c)
}

func adcMakePacket(a *apk, m adc.Message) adc.Packet {
	if a.Set {
		b := *a
		b.Set = false
		p := adcMakePacket(&b, &adc.RawMessage{Data: []byte("other")})
		p.SetMessage(m)
		return p
	}
	var src, dst adc.SID
	copy(src[:], a.Src)
	copy(dst[:], a.Dst)
	switch a.Kind {
	case 'I':
		return &adc.InfoPacket{Msg: m}
	case 'H':
		return &adc.HubPacket{Msg: m}
	case 'C':
		return &adc.ClientPacket{Msg: m}
	case 'B':
		return &adc.BroadcastPacket{ID: src, Msg: m}
	case 'D':
		return &adc.DirectPacket{ID: src, To: dst, Msg: m}
	case 'E':
		return &adc.EchoPacket{ID: src, To: dst, Msg: m}
	case 'F':
		p := &adc.FeaturePacket{ID: src, Msg: m}
		for _, s := range a.Sel {
			s := s.([]interface{})
			var f adc.Feature
			copy(f[:], s[0].(B))
			p.Sel = append(p.Sel, adc.FeatureSel{Fea: f, Sel: s[1].(bool)})
		}
		return p
	case 'U':
		p := &adc.UDPPacket{Msg: m}
		copy(p.ID[:], a.Cid)
		return p
	}
	panic("unknown kind")
}

func (r *Run) adcPacketCase(id interface{}, a *apk, t string, m adc.Message, types []string, prefix []byte) []byte {
	r.Count("packet_"+string(a.Kind), 1)
	var line []byte
	var c, enc M
	pre := M{}
	if !guarded(func() {
		p := adcMakePacket(a, m)
		b1, s1 := adcAddr(p)
		pre["before"] = []interface{}{b1, s1, adcMsgDump(p.Message())}
		enc = adcEncPacket(p, prefix)
		b2, s2 := adcAddr(p)
		pre["after"] = []interface{}{b2, s2, adcMsgDump(p.Message())}
		if s, ok := enc["line"].(B); ok {
			line = s
		}
		c = adcLine(line, types, prefix)
	}) {
		c = M{"raw": M{"st": "hang"}, "again": M{"st": "none", "line": B{}}, "into": []M{}, "used": M{"st": "none"},
			"full": M{"msg": M{"st": "hang", "t": "", "f": []int{}}, "enc": M{"st": "none", "line": B{}}}}
		enc = M{"st": "hang", "line": B{}}
		pre = M{"before": 0, "after": 0}
		r.halt()
	}
	c["id"], c["k"], c["pk"], c["t"], c["f"], c["enc"] = id, "pkt", a.m(), t, adcMsgDump(m)["f"], enc
	c["before"], c["after"] = pre["before"], pre["after"]
	r.Emit(c)
	return line
}

const adcKinds = "IHCBDEFU"

func (g *gen) sid() B {
	if g.wild && chance(g.Rand, 0.15) {
		return randBytes(g.Rand, 4, "a \n+-\x00Z")
	}
	return B(g.b32(4))
}

func (g *gen) apk() *apk {
	a := &apk{Kind: adcKinds[g.Intn(len(adcKinds))], Set: chance(g.Rand, 0.3)}
	switch a.Kind {
	case 'B', 'F':
		a.Src = g.sid()
	case 'D', 'E':
		a.Src, a.Dst = g.sid(), g.sid()
	case 'U':
		a.Cid = randBytes(g.Rand, 24, "")
	}
	if a.Kind == 'F' {
		for i := pick(g.Rand, 0, 1, 1, 2, 3, 5); i > 0; i-- {
			f := g.feature()
			a.Sel = append(a.Sel, []interface{}{cp(f[:]), chance(g.Rand, 0.5)})
		}
	}
	return a
}

// anyMsg is a message, possibly one that the library does not know.
func (g *gen) anyMsg() (string, adc.Message) {
	if chance(g.Rand, 0.35) {
		m := &adc.RawMessage{}
		s := g.one([]string{"MSG", "STA", "XYZ", "AB1", "INF", "SUP", "GET", "ZON", "QUI", "RES"})
		if g.wild && chance(g.Rand, 0.1) {
			s = string(randBytes(g.Rand, 3, "A \n+\x00"))
		}
		copy(m.Type[:], s)
		switch g.Intn(4) {
		case 0:
		case 1:
			m.Data = randBytes(g.Rand, 1+g.Intn(8), "ab +-TC4\\")
		default:
			m.Data = randBytes(g.Rand, g.Intn(30), "abcdefgh ABCDEF0123+-")
		}
		return "Raw", m
	}
	t := adcMessages[g.Intn(len(adcMessages))]
	return t, g.adcValue(t).(adc.Message)
}

func (g *gen) lineMutate(l []byte) []byte {
	l = append([]byte{}, l...)
	for k := pick(g.Rand, 1, 1, 1, 2, 3); k > 0; k-- {
		if len(l) == 0 {
			return l
		}
		i := g.Intn(len(l))
		if chance(g.Rand, 0.7) && len(l) > 16 {
			i = g.Intn(16)
		}
		switch g.Intn(9) {
		case 0:
			l[i] = "A +-\x00\nz1"[g.Intn(8)]
		case 1:
			l = append(l[:i], l[i+1:]...)
		case 2:
			l = append(l[:i], append([]byte{" +-AZ1\\"[g.Intn(7)]}, l[i:]...)...)
		case 3:
			l = l[:i]
		case 4:
			l = append(l[:i], '\n')
		case 5:
			l[0] = "IHCBDEFUXih "[g.Intn(12)]
		case 6:
			l = append(l[:len(l)-1], " \n"[g.Intn(2):]...)
		case 7:
			l[i] ^= 0x20
		case 8:
			j := g.Intn(len(l))
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

var adcLines = []string{
	"", "\n", "I\n", "IMSG", "IMSG\n", "IMSG \n", "IMSG  \n", "IMSG a", "IMSGa\n", "IMS\n", "XMSG a\n", "imsg a\n", "IMSG a\x00\n", "\x00\n", "HSUP ADBASE ADTIGR\n", "CSTA 000 ok\n", "CGET file a 0 -1\n",
	"BMSG\n", "BMSG \n", "BMSG AAA\n", "BMSG AAAA\n", "BMSG AAAA \n", "BMSG AAAA  \n", "BMSG AAAA a\n", "BMSG AAAAa\n", "BMSG AAAA", "BMSGAAAAA\n",
	"DMSG AAAA\n", "DMSG AAAA \n", "DMSG AAAA BBB\n", "DMSG AAAA BBBB\n", "DMSG AAAA BBBB \n", "DMSG AAAABBBBB x\n", "DMSG AAAA BBBBx\n", "EMSG AAAA BBBB a\\sb PMAAAA\n", "EMSG AAA BBBB a\n",
	"FSCH AAAA\n", "FSCH AAAA \n", "FSCH AAAA +TCP4\n", "FSCH AAAA +TCP4 \n", "FSCH AAAA +TCP\n", "FSCH AAAA +TCP4x\n", "FSCH AAAA +TCP4 -NAT0 ANa\n", "FSCH AAAA +TCP4-NAT0 ANa\n", "FSCH AAAA +\n", "FSCH AAAA ANa +TCP4\n",
	"FSCH AAAA +TCP4  ANa\n", "FSCH AAAA  +TCP4 ANa\n", "FSCH AAAA +TCP4 +TCP4\n", "FSCH AAAA ++++- ANx\n", "FSCH AAA +TCP4\n", "FMSG AAAA +TCP4 x\n", "FSCH AAAA + TCP ANa\n",
	"UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ\n", "UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ a\n", "UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQa\n", "UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN\n",
	"UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN1 a\n", "UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNR a\n", "UMSG lwpnacqdbzryxw3vhjvcj64qbznghohhhzwclnq a\n", "UMSG  a\n", "UMSG\n", "USCH LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ TOx ANa\n",
	"IXYZ\n", "IXYZ a b\n", "IZON\n", "IZON \n", "IZON x\n", "ISTA 0\n", "BINF AAAB IDLWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ NIx\n", "IQUI AAAA\n", "IQUI AAA\n", "IGPA AA\n", "IGPA A\n",
}

func suiteAdcPacket(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				L B `json:"l"`
			}
			must(json.Unmarshal(l, &s))
			r.adcLineCase([]interface{}{"model", i}, s.L, []string{"ChatMessage"}, []byte("BMSG A"))
		}
		return
	}
	for i, l := range adcLines {
		r.adcLineCase([]interface{}{"line", i}, []byte(l), []string{"ChatMessage", "SearchRequest", "Status"}, []byte("x y\n"))
	}
	if r.Profile == "C16" || r.Deep {
		r.adcPacketBytes()
	}
	r.each(r.adcPacketRandom)
}

// adcPacketBytes puts every byte at the ends of the payload, alone in it, and in the place of each byte of the header.
func (r *Run) adcPacketBytes() {
	heads := []string{"IMSG", "HMSG", "CMSG", "BMSG AAAA", "DMSG AAAA BBBB", "EMSG AAAA BBBB", "FMSG AAAA +TCP4",
		"FMSG AAAA -NAT0 +TCP4", "UMSG LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ"}
	types := []string{"ChatMessage"}
	put := func(id []interface{}, parts ...string) {
		r.adcLineCase(id, []byte(strings.Join(parts, "")), types, []byte("x y\n"))
	}
	edges := []string{" ", "\t", "\r", "\v", "\f", "\u00a0", "\u0085", "\ufeff", "\x1f", "\x7f", "\\", "|", "$", "'", "\""}
	for hi, h := range heads {
		for b := 0; b < 256; b++ {
			c := string([]byte{byte(b)})
			put([]interface{}{"last", hi, b}, h, " ab", c, "\n")
			put([]interface{}{"first", hi, b}, h, " ", c, "ab\n")
			put([]interface{}{"only", hi, b}, h, " ", c, "\n")
			if at := b % len(h); !r.Deep {
				put([]interface{}{"head", hi, b}, h[:at], c, h[at+1:], " ab\n")
			} else {
				for at := range h {
					put([]interface{}{"head", hi, b, at}, h[:at], c, h[at+1:], " ab\n")
				}
			}
		}
		for i, e := range edges {
			for j, f := range edges {
				put([]interface{}{"edges", hi, i, j}, h, " ", e, "ab", f, "\n")
				put([]interface{}{"pair", hi, i, j}, h, " ab", e, f, "\n")
			}
		}
	}
}

func (r *Run) adcPacketRandom(i int) {
	rng := r.Rng(i)
	g := &gen{Rand: rng, wild: chance(rng, 0.15)}
	a := g.apk()
	t, m := g.anyMsg()
	cmd := m.Cmd()
	a.Cmd = cp(cmd[:])
	types := []string{adcMessages[rng.Intn(len(adcMessages))]}
	if t != "Raw" {
		types = append(types, t)
	}
	prefix := randBytes(rng, rng.Intn(9), "a \\\n")
	if chance(rng, 0.45) {
		r.adcPacketCase(i, a, t, m, types, prefix)
		return
	}
	var line []byte
	if p := call(func() {
		buf := bytes.NewBuffer(nil)
		want(adcMakePacket(a, m).MarshalPacketADC(buf))
		line = buf.Bytes()
	}); p != "" {
		r.adcPacketCase(i, a, t, m, types, prefix)
		return
	}
	if r.Profile == "C13" && chance(rng, 0.3) {
		line = append([]byte{adcKinds[rng.Intn(len(adcKinds))]}, randBytes(rng, rng.Intn(60), "AB 12\\,/sn+-\n")...)
	}
	if chance(rng, 0.9) {
		line = g.lineMutate(line)
	}
	r.adcLineCase(i, line, types, prefix)
}
