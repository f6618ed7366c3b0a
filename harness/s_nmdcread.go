package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["nmdcread"] = suiteNmdcRead }

// nmdcErr classifies an error of the reader.
func nmdcErr(err error) string {
	var pv *nmdc.ErrProtocolViolation
	var uc *nmdc.ErrUnexpectedCommand
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errHook):
		return "hook"
	case err == io.EOF:
		return "eof"
	case errors.As(err, &uc):
		return "unexpected"
	case errors.As(err, &pv):
		return "proto"
	}
	return "other"
}

var nmdcNames = []string{
	"", "x", "Foo", "FooBar1", "a/b", "a-b", "a_b", "a.b", "a:b", "To:", "MyNick2", "hello", "ChatX",
	"$x", "<", "a,b", "a;b", "a\"", "a\x80", "\xd1\x8f", "a\xff", "caf\xc3\xa9", "a\tb", "a\rb", "a\nb", "a\x7f", "a\x01", "a(b)", "a@b", "[", "`", "{", "a~", "a=b", "a?", "a+b", "a*", "a&b", "a#", "a!",
	strings.Repeat("n", 31), strings.Repeat("n", 32), strings.Repeat("n", 33), strings.Repeat("n", 40),
}

// frame makes one frame of a stream, without the delimiter.
func (g *gen) frame() []byte {
	rng := g.Rand
	switch x := rng.Float64(); {
	case x < 0.07:
		return nil // keep-alive
	case x < 0.12:
		f := "$" + g.one(nmdcNames)
		if chance(rng, 0.7) {
			f += " " + g.raw()
		}
		return bytes.ReplaceAll([]byte(f), []byte("|"), nil)
	case x < 0.15:
		f := g.frame()
		i := rng.Intn(len(f) + 1)
		return append(f[:i:i], append([]byte{0}, f[i:]...)...)
	case x < 0.30:
		t := g.one(nmdcTypes)
		if v := nmdcBodies[t]; len(v) != 0 && t != "Raw" {
			f := v[rng.Intn(len(v))]
			if t != "Chat" {
				f = "$" + t + " " + f
			}
			return bytes.ReplaceAll([]byte(f), []byte("|"), nil)
		}
	case x < 0.34:
		return bytes.ReplaceAll(randBytes(rng, 1+rng.Intn(12), "$$ <>ab&|\x80\xd1\x8f:"), []byte("|"), nil)
	}
	for {
		t := g.one(nmdcTypes)
		if chance(rng, 0.4) {
			t = g.one(nmdcRich)
		}
		if chance(rng, 0.15) {
			t = "Chat"
		}
		m := g.msg(t)
		var w []byte
		var err error
		if p := call(func() { w, err = nmdc.Marshal(encOf(g.cs), m) }); p != "" || err != nil || len(w) == 0 {
			continue
		}
		w = w[:len(w)-1]
		if chance(rng, 0.1) {
			w = g.mutate(w)
		}
		return bytes.ReplaceAll(w, []byte("|"), nil)
	}
}

// nextType guesses the type of the next frame.
func nextType(in []byte) string {
	for len(in) > 0 && in[0] == '|' {
		in = in[1:]
	}
	if len(in) == 0 || in[0] != '$' {
		return "Chat"
	}
	i := bytes.IndexAny(in, " |")
	if i < 0 {
		i = len(in)
	}
	typ := string(in[1:i])
	for _, t := range nmdcTypes {
		if t == typ && t != "Raw" && t != "Chat" {
			return t
		}
	}
	return "Hello"
}

// nextCmd is the name of the next frame.
func nextCmd(in []byte) string {
	in = bytes.TrimLeft(in, "|")
	if len(in) == 0 || in[0] != '$' {
		return ""
	}
	i := bytes.IndexAny(in, " |")
	if i < 0 {
		i = len(in)
	}
	return string(in[1:i])
}

type nrSession struct {
	cs, peer string
	in, wire []byte
	zlib     bool
	chunks   []chunk
	raw, msg int
	ka, enc  bool
	uerr     bool
	maxcmd   int
	pDrop    float64
	pErr     float64
	typed    float64
	setcs    float64
	reconf   float64
	script   *nrScript
}

// nrScript is a session of the model.
type nrScript struct {
	In B `json:"in"`
	H  struct {
		Raw    int  `json:"raw"`
		Msg    int  `json:"msg"`
		KA     bool `json:"ka"`
		Enc    bool `json:"enc"`
		UErr   bool `json:"uerr"`
		MaxCmd int  `json:"maxcmd"`
	} `json:"H"`
	Calls []struct {
		Op    string   `json:"op"`
		Types []string `json:"types"`
		Cmds  []B      `json:"cmds"`
	} `json:"calls"`
	Log []struct {
		K   string `json:"k"`
		Ret string `json:"ret"`
	} `json:"log"`
}

// next is the next decision of a hook; def, if the session went another way.
func (s *nrScript) next(k, def string) string {
	for len(s.Log) > 0 && s.Log[0].K == "ret" {
		s.Log = s.Log[1:]
	}
	if len(s.Log) == 0 || s.Log[0].K != k {
		return def
	}
	ret := s.Log[0].Ret
	s.Log = s.Log[1:]
	return ret
}

func (r *Run) nmdcReadSession(id interface{}, rng *rand.Rand, s *nrSession) {
	head := M{"id": id, "cs": s.cs, "in": cp(s.in), "H": M{
		"raw": s.raw, "msg": s.msg, "ka": s.ka, "enc": s.enc, "uerr": s.uerr, "maxcmd": s.maxcmd,
	}}
	r.Session(head, func(e *Events) {
		rd := nmdc.NewReader(&scriptReader{data: s.wire, chunks: s.chunks})
		rd.SetMaxLine(-1)
		if s.maxcmd != 32 {
			rd.SetMaxCmdName(s.maxcmd)
		}
		rd.SetDecoder(decOf(s.cs))
		used := 0
		rd.OnLine(func(line []byte) (bool, error) { used += len(line); return true, nil })
		decide := func(k string, drop bool) string {
			if s.script != nil {
				return s.script.next(k, "ok")
			}
			if chance(rng, s.pErr) {
				return "err"
			}
			if drop && chance(rng, s.pDrop) {
				return "drop"
			}
			return "ok"
		}
		result := func(ret string) (bool, error) {
			switch ret {
			case "err":
				return chance(rng, 0.5), errHook
			case "drop":
				return false, nil
			}
			return true, nil
		}
		setcs := func() {
			if chance(rng, s.setcs) {
				cs := charsets[rng.Intn(len(charsets))]
				rd.SetDecoder(decOf(cs))
				e.End(M{"k": "setcs", "cs": cs})
			}
		}
		addRaw := func(i int) {
			rd.OnRawMessage(func(cmd, args []byte) (bool, error) {
				yield()
				ret := decide("raw", !s.zlib)
				if ret == "drop" {
					setcs()
				}
				e.End(M{"k": "raw", "i": i, "cmd": cp(cmd), "args": cp(args), "chat": cmd == nil, "ret": ret})
				r.Count("raw_"+ret, 1)
				return result(ret)
			})
		}
		addMsg := func(i int) {
			rd.OnMessage(func(m nmdc.Message) (bool, error) {
				yield()
				ret := decide("msg", true)
				if _, ok := m.(*nmdc.ZOn); ok && s.zlib {
					ret = "ok"
					if i == 1 {
						want(rd.EnableZlib())
					}
				}
				setcs()
				e.End(M{"k": "msg", "i": i, "m": dumpNmdc(m), "ret": ret})
				r.Count("msg_"+ret, 1)
				return result(ret)
			})
		}
		setKA := func() {
			rd.OnKeepAlive = func() error {
				yield()
				ret := decide("ka", false)
				setcs()
				e.End(M{"k": "ka", "ret": ret})
				_, err := result(ret)
				return err
			}
		}
		setEnc := func() {
			rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
				yield()
				ret := "nil"
				switch x := rng.Float64(); {
				case x < 0.6 && s.peer != "utf8":
					ret = s.peer
				case x < 0.75:
					ret = charsets[1+rng.Intn(len(charsets)-1)]
				case x < 0.8:
					ret = "err"
				}
				if s.script != nil {
					ret = s.script.next("enc", "nil")
				}
				e.End(M{"k": "enc", "text": cp(text), "ret": ret})
				r.Count("enc_"+ret, 1)
				switch ret {
				case "err":
					return nil, errHook
				case "nil":
					return nil, nil
				}
				return decOf(ret), nil
			}
		}
		setUErr := func() {
			rd.OnUnmarshalError = func(text []byte, err error) (bool, error) {
				yield()
				ret := "skip"
				if chance(rng, 0.3) {
					ret = "err"
				}
				if s.script != nil {
					ret = s.script.next("uerr", "skip")
				}
				e.End(M{"k": "uerr", "text": cp(text), "ret": ret})
				r.Count("uerr_"+ret, 1)
				if ret == "err" {
					return true, errHook
				}
				return false, nil
			}
		}
		for i := 1; i <= s.raw; i++ {
			addRaw(i)
		}
		for i := 1; i <= s.msg; i++ {
			addMsg(i)
		}
		callbacks := func(ka, enc, uerr bool) {
			rd.OnKeepAlive, rd.OnUnknownEncoding, rd.OnUnmarshalError = nil, nil, nil
			if ka {
				setKA()
			}
			if enc {
				setEnc()
			}
			if uerr {
				setUErr()
			}
		}
		callbacks(s.ka, s.enc, s.uerr)
		now := *s
		var all []nmdc.Message
		g := &gen{Rand: rng, cs: "utf8"}
		eofs := 0
		for n := 0; n < 400 && (eofs < 2 || s.script != nil); n++ {
			setcs()
			if chance(rng, s.reconf) {
				switch rng.Intn(6) {
				case 0:
					now.raw++
					addRaw(now.raw)
				case 1:
					now.msg++
					addMsg(now.msg)
				case 2:
					now.ka = !now.ka
				case 3:
					now.enc = !now.enc
				case 4:
					now.uerr = !now.uerr
				default:
					now.maxcmd = pick(rng, 3, 5, 31, 32, 33)
					rd.SetMaxCmdName(now.maxcmd)
				}
				callbacks(now.ka, now.enc, now.uerr)
				e.End(M{"k": "conf", "H": M{"raw": now.raw, "msg": now.msg, "ka": now.ka, "enc": now.enc, "uerr": now.uerr, "maxcmd": now.maxcmd}})
			}
			op, types := "read", []string{}
			if s.script != nil {
				if n >= len(s.script.Calls) {
					break
				}
				op, types = s.script.Calls[n].Op, append(types, s.script.Calls[n].Types...)
			} else if chance(rng, s.typed) {
				k := 1
				if op = "to"; chance(rng, 0.5) {
					op, k = "any", 1+rng.Intn(4)
				}
				for len(types) < k {
					t := g.one(nmdcTypes)
					if chance(rng, 0.6) {
						t = nextType(s.in[min(used, len(s.in)):])
					} else if chance(rng, 0.2) {
						t = "Chat"
					}
					types = append(types, t)
				}
			}
			cmds := make([]B, len(types))
			for i, t := range types {
				if cmds[i] = (B{}); t != "Raw" {
				} else if s.script != nil {
					cmds[i] = cp(s.script.Calls[n].Cmds[i])
				} else {
					switch rng.Intn(4) {
					case 0:
						cmds[i] = S(g.one(nmdcTypes))
					case 1:
						cmds[i] = S(g.one([]string{"", "Foo", "hello", "x"}))
					default:
						cmds[i] = S(nextCmd(s.in[min(used, len(s.in)):]))
					}
				}
			}
			e.End(M{"k": "call", "op": op, "types": types, "cmds": cmds})
			ret := M{"k": "ret", "err": "", "to": 0, "m": dumpNmdc(nil), "exp": B{}, "rtyp": B{}, "rdata": B{}}
			ok := e.Do(ret, func(ret M) {
				var m nmdc.Message
				var err error
				var dst []nmdc.Message
				for i, t := range types {
					d := newNmdc(t)
					if chance(rng, 0.3) {
						d = g.msg(t)
					}
					if raw, ok := d.(*nmdc.RawMessage); ok {
						raw.Typ = string(cmds[i])
					}
					dst = append(dst, d)
				}
				switch op {
				case "read":
					m, err = rd.ReadMsg()
				case "to":
					err = rd.ReadMsgTo(dst[0])
					m = dst[0]
				case "any":
					m, err = rd.ReadMsgToAny(dst...)
					for i, d := range dst {
						if err == nil && d == m { // pointers to empty structures are all the same
							ret["to"] = i + 1
							break
						}
					}
				}
				ret["err"] = nmdcErr(err)
				r.Count("ret_"+nmdcErr(err), 1)
				if err == nil {
					ret["m"] = dumpNmdc(m)
					all = append(all, m)
				}
				var uc *nmdc.ErrUnexpectedCommand
				if errors.As(err, &uc) {
					ret["exp"], ret["rtyp"], ret["rdata"] = S(uc.Expected), S(uc.Received.Typ), cp(uc.Received.Data)
				}
				if err == io.EOF {
					eofs++
				}
			})
			if !ok {
				return
			}
		}
		ms := make([]M, len(all))
		for i := range all {
			ms[i] = dumpNmdc(all[i])
		}
		e.End(M{"k": "recheck", "ms": ms})
	})
}

func (r *Run) nmdcReadRandom(id int) {
	rng := r.Rng(id)
	s := &nrSession{cs: "utf8", peer: charsets[rng.Intn(len(charsets))], maxcmd: 32}
	if chance(rng, 0.3) {
		s.peer = "utf8"
	}
	if chance(rng, 0.6) {
		s.cs = s.peer
	}
	p := r.Profile
	if p == "C07" || chance(rng, 0.5) {
		s.raw, s.msg = rng.Intn(3), rng.Intn(3)
		s.pDrop = []float64{0, 0.1, 0.4}[rng.Intn(3)]
		s.pErr = []float64{0, 0.02, 0.2}[rng.Intn(3)]
	}
	s.ka = chance(rng, 0.5)
	s.enc = chance(rng, 0.5)
	s.uerr = chance(rng, 0.5)
	if p == "C09" && chance(rng, 0.5) {
		s.cs, s.enc = "utf8", true
	}
	if chance(rng, 0.3) {
		s.maxcmd = pick(rng, 3, 4, 5, 8, 31, 33, 40)
	}
	if chance(rng, 0.5) {
		s.typed = []float64{0.2, 0.7, 1}[rng.Intn(3)]
	}
	if chance(rng, 0.1) {
		s.setcs = 0.2
	}
	if chance(rng, 0.2) {
		s.reconf = 0.2
	}
	g := &gen{Rand: rng, cs: s.peer, wild: chance(rng, 0.2), plain: chance(rng, 0.3)}
	s.zlib = chance(rng, 0.15)
	if s.zlib {
		s.typed, s.pErr, s.reconf = 0, 0, 0
		s.raw, s.msg = rng.Intn(2), 1+rng.Intn(2)
	}
	n := 1 + rng.Intn(12)
	if r.Deep {
		n = 1 + rng.Intn(40)
	}
	var zone []byte
	zon := false
	end := func() {
		if zon {
			s.wire = append(s.wire, zsection(rng, zone, pick(rng, 0, 1, 9, -1), true)...)
		} else {
			s.wire = append(s.wire, zone...)
		}
		zone, zon = nil, false
	}
	for i := 0; i < n; i++ {
		f := append(g.frame(), '|')
		if s.zlib && bytes.HasPrefix(f, []byte("$ZOn")) {
			f = []byte("$Foo|") // activated only where a section begins
		}
		s.in = append(s.in, f...)
		zone = append(zone, f...)
		if s.zlib {
			if zon && chance(rng, 0.3) {
				end()
			} else if !zon && chance(rng, 0.3) {
				s.in = append(s.in, "$ZOn|"...)
				zone = append(zone, "$ZOn|"...)
				end()
				zon = true
			}
		}
	}
	if !s.zlib && chance(rng, 0.25) {
		// not terminated
		tail := randBytes(rng, 1+rng.Intn(20), "$<> ab1\x80")
		s.in = append(s.in, tail...)
		zone = append(zone, tail...)
	}
	end()
	s.chunks = randChunks(rng, len(s.wire), false)
	r.nmdcReadSession(id, rng, s)
}

func (r *Run) nmdcReadScenarios() {
	for i, l := range readLines(r.In) {
		sc := &nrScript{}
		must(json.Unmarshal(l, sc))
		rng := r.Rng(i)
		s := &nrSession{cs: "utf8", peer: "utf8", in: sc.In, wire: sc.In, script: sc,
			raw: sc.H.Raw, msg: sc.H.Msg, ka: sc.H.KA, enc: sc.H.Enc, uerr: sc.H.UErr, maxcmd: sc.H.MaxCmd,
			chunks: randChunks(rng, len(sc.In), false)}
		r.nmdcReadSession([]interface{}{"model", i}, rng, s)
	}
}

// nmdcReadBytes reads frames with one byte changed, many in a session.
func (r *Run) nmdcReadBytes() {
	const other = "x $<>:. \t\r\n\x00\x05/-_0\x7f\x80\xff#A"
	var frames []string
	add := func(f string) {
		if !strings.Contains(f, "|") {
			frames = append(frames, f)
		}
	}
	for i, f := range []string{"$Foo a", "<a> b", "$Hello a", "$Kick b", "hi a", "$", "<>", " ", "$x"} {
		byteEdits(f, i, true, other, add)
		for _, o := range []byte(other) {
			add(f + string([]byte{o}))
		}
	}
	for i, f := range []string{
		"$To: a From: b $<b> hi", "$MCTo: a $b hi", "$MyINFO $ALL a d$ $x\x01$m$1$", "$Supports A BC ", "$Lock abc Pk=x", "* a waves", "<a b> c d",
		"$HubName a - b", "$Search Hub:a F?T?0?9?TTH:x", "$Quit a b", "$ForceMove a:1", "$OpList a$$b$$", "$GetPass", "$BadPass", "$HubIsFull", "$ZOn", "$BotList a$$", "$UserIP a 1.1.1.1$$",
	} {
		byteEdits(f, i+int(r.Seed), r.Deep, other, add)
	}
	for i := 0; len(frames) > 0; i++ {
		n := min(len(frames), 5)
		rng := r.Rng(i)
		s := &nrSession{cs: "utf8", peer: "utf8", maxcmd: 32, raw: i % 2, msg: i / 2 % 2, ka: i%3 == 0, uerr: i%3 != 1}
		if i%4 == 3 {
			s.typed = 0.5
		}
		s.in = []byte(strings.Join(frames[:n], "|") + "|")
		s.wire = s.in
		s.chunks = randChunks(rng, len(s.wire), false)
		frames = frames[n:]
		r.nmdcReadSession([]interface{}{"bytes", i}, rng, s)
	}
}

func suiteNmdcRead(r *Run) {
	if r.In != "" {
		r.nmdcReadScenarios()
		return
	}
	if r.Deep || r.Profile == "C08" {
		r.nmdcReadBytes()
	}
	r.each(r.nmdcReadRandom)
}
