package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"net/url"
	"reflect"
	"sort"
	"strings"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
)

func init() { suites["total"] = suiteTotal }

// totalEntry is something that is given bytes.
type totalEntry struct {
	name string
	fam  string
	fnc  func(rng *rand.Rand, in []byte) error
}

func totalReenc(m nmdc.Message, cs string) {
	buf := bytes.NewBuffer(nil)
	_ = nmdc.MarshalTo(encOf(cs), buf, m)
	_ = m.Type()
	if l, ok := m.(*nmdc.Lock); ok {
		k := l.Key()
		_ = nmdc.MarshalTo(nil, buf, k)
		_ = l.LockString(true)
	}
	if s, ok := m.(*nmdc.Supports); ok {
		_ = nmdc.MarshalTo(nil, buf, s)
	}
}

var totalEntries = makeTotalEntries()

func makeTotalEntries() (out []totalEntry) {
	for _, t := range nmdcTypes {
		t := t
		out = append(out, totalEntry{"nmdc." + t, "nmdc", func(rng *rand.Rand, in []byte) error {
			m := newNmdc(t)
			cs := charsets[rng.Intn(len(charsets))]
			if err := m.UnmarshalNMDC(decOf(cs), in); err != nil {
				return err
			}
			totalReenc(m, cs)
			return nil
		}})
		if t == "Chat" || t == "Raw" {
			continue
		}
		out = append(out, totalEntry{"nmdc.Unmarshal " + t, "nmdc", func(rng *rand.Rand, in []byte) error {
			cs := charsets[rng.Intn(len(charsets))]
			m, err := nmdc.Unmarshal(decOf(cs), append([]byte("$"+t+" "), in...))
			if err != nil {
				return err
			}
			totalReenc(m, cs)
			return nil
		}})
	}
	out = append(out, totalEntry{"nmdc.Unmarshal", "nmdc", func(rng *rand.Rand, in []byte) error {
		_, err := nmdc.Unmarshal(decOf(charsets[rng.Intn(len(charsets))]), in)
		return err
	}})
	for _, t := range append(append([]string{}, adcMessages...), adcValues...) {
		t := t
		if t == "AddFeatures" {
			continue
		}
		out = append(out, totalEntry{"adc." + t, "adc", func(rng *rand.Rand, in []byte) error {
			o := adcNew[t]()
			if err := adc.Unmarshal(in, o); err != nil {
				return err
			}
			_ = adcEncode(o, bytes.NewBuffer(nil))
			return nil
		}})
	}
	out = append(out, totalEntry{"adc.Unmarshal of a message with fields of other kinds", "adc", func(rng *rand.Rand, in []byte) error {
		o := new(adcOdd)
		if err := adc.Unmarshal(in, o); err != nil {
			return err
		}
		return adc.Marshal(bytes.NewBuffer(nil), o)
	}})
	for _, cmd := range []string{"MSG", "STA", "INF", "SUP", "GET", "SND", "SCH", "RES", "QUI", "CTM", "RCM", "CMD", "GPA", "PAS", "SID", "GFI", "ZON", "ZOF", "XYZ"} {
		var c adc.MsgType
		copy(c[:], cmd)
		out = append(out, totalEntry{"adc.UnmarshalMessage " + cmd, "adc", func(rng *rand.Rand, in []byte) error {
			m, err := adc.UnmarshalMessage(c, in)
			if err == nil {
				_ = adc.Marshal(bytes.NewBuffer(nil), m)
			}
			return err
		}})
		for _, kind := range adcKinds {
			pre := string(rune(kind)) + cmd
			out = append(out, totalEntry{"adc.DecodePacket " + pre, "packet", func(rng *rand.Rand, in []byte) error {
				in = append([]byte(pre+" "), in...)
				if rng.Intn(4) != 0 {
					in = append(in, '\n')
				}
				p, err := adc.DecodePacket(in)
				if err != nil {
					return err
				}
				_ = p.MarshalPacketADC(bytes.NewBuffer(nil))
				_ = p.Message()
				q, err := adc.DecodePacketRaw(in)
				if err != nil {
					return err
				}
				_ = q.DecodeMessage()
				_ = q.MarshalPacketADC(bytes.NewBuffer(nil))
				if q, err = adc.DecodePacketRaw(in); err == nil {
					if raw, ok := q.Message().(*adc.RawMessage); ok {
						_, _ = raw.Decode()
					}
					_ = q.DecodeMessageTo(&adc.UserInfo{})
				}
				return nil
			}})
		}
	}
	for _, kind := range adcKinds {
		kind := byte(kind)
		out = append(out, totalEntry{"adc.DecodePacket " + string(rune(kind)) + " rest", "packet", func(rng *rand.Rand, in []byte) error {
			p := adcUsedPacket(kind)
			if rng.Intn(3) == 0 {
				in = append(in, '\n')
			}
			if err := p.UnmarshalPacketADC(adc.MsgType{'I', 'N', 'F'}, in); err != nil {
				return err
			}
			_ = p.MarshalPacketADC(bytes.NewBuffer(nil))
			return p.DecodeMessage()
		}})
	}
	out = append(out,
		totalEntry{"adc.DecodePacket", "packet", func(rng *rand.Rand, in []byte) error { _, err := adc.DecodePacket(in); return err }},
		totalEntry{"adc.DecodePacketRaw", "packet", func(rng *rand.Rand, in []byte) error { _, err := adc.DecodePacketRaw(in); return err }},
		totalEntry{"keyprint.FromBytes", "adc", func(rng *rand.Rand, in []byte) error { _ = keyprint.FromBytes(in); return nil }},
		totalEntry{"keyprint.FromFile", "pem", func(rng *rand.Rand, in []byte) error {
			_, err := keyprint.FromFile(bytes.NewReader(in))
			return err
		}},
		totalEntry{"tiger.TreeLeaves", "adc", func(rng *rand.Rand, in []byte) error { _, err := tiger.TreeLeaves(bytes.NewReader(in)); return err }},
		totalEntry{"tiger.TreeHash", "adc", func(rng *rand.Rand, in []byte) error { _, err := tiger.TreeHash(bytes.NewReader(in)); return err }},
		totalEntry{"tiger.Leaves.TreeHash", "adc", func(rng *rand.Rand, in []byte) error {
			// a list of leaves as received: every other byte of it starts one
			leaves := make(tiger.Leaves, len(in)/2)
			for i := range leaves {
				copy(leaves[i][:], in[2*i:])
			}
			_ = leaves.TreeHash()
			return nil
		}},
		totalEntry{"tiger.HashBytes", "adc", func(rng *rand.Rand, in []byte) error { _ = tiger.HashBytes(in); return nil }},
		totalEntry{"CID.UnmarshalJSON", "adc", func(rng *rand.Rand, in []byte) error {
			var c types.CID
			return json.Unmarshal(in, &c)
		}},
	)
	for _, p := range idParsers {
		p := p
		if strings.HasPrefix(p.how, "Must") || strings.HasPrefix(p.how, "tiger.Must") || p.how == "SIDFromString" {
			continue
		}
		out = append(out, totalEntry{p.how, "adc", func(rng *rand.Rand, in []byte) error { _, err := p.fnc(in); return err }})
	}
	for _, a := range []struct {
		name  string
		parse func(string) (*url.URL, error)
		norm  func(string) (string, error)
	}{{"dc", dc.ParseAddr, dc.NormalizeAddr}, {"nmdc", nmdc.ParseAddr, nmdc.NormalizeAddr}, {"adc", adc.ParseAddr, adc.NormalizeAddr}} {
		a := a
		out = append(out, totalEntry{a.name + ".ParseAddr", "addr", func(rng *rand.Rand, in []byte) error {
			u, err := a.parse(string(in))
			if err == nil {
				_ = keyprint.FromURL(u)
			}
			return err
		}}, totalEntry{a.name + ".NormalizeAddr", "addr", func(rng *rand.Rand, in []byte) error { _, err := a.norm(string(in)); return err }})
	}
	return out
}

// totalBatch counts what the calls of a case end with.
type totalBatch struct {
	rng  *rand.Rand
	rows map[string]*[4]int
	bad  []M
	keep []byte
}

func (b *totalBatch) call(name string, in []byte, fnc func(in []byte) error) {
	row := b.rows[name]
	if row == nil {
		row = new([4]int)
		b.rows[name] = row
	}
	row[0]++
	b.keep = append(b.keep[:0], in...)
	// the input ends where its memory ends
	data := make([]byte, len(in))
	copy(data, in)
	var err error
	p := call(func() {
		if err = fnc(data); err != nil {
			_ = err.Error()
		}
	})
	switch {
	case p != "":
		row[3]++
		if len(b.bad) < 20 {
			b.bad = append(b.bad, M{"entry": name, "what": p, "input": cp(b.keep)})
		}
	case err != nil:
		row[2]++
	default:
		row[1]++
	}
}

func (b *totalBatch) entry(e totalEntry, in []byte) {
	b.call(e.name, in, func(in []byte) error { return e.fnc(b.rng, in) })
}

func (r *Run) totalCase(id interface{}, rng *rand.Rand, fnc func(b *totalBatch)) {
	b := &totalBatch{rng: rng, rows: map[string]*[4]int{}, bad: []M{}}
	ok := guarded(func() { fnc(b) })
	if !ok {
		b = &totalBatch{rows: map[string]*[4]int{}, bad: []M{{"entry": "a call", "what": "hang", "input": cp(b.keep)}}}
	}
	rows := []M{}
	n := 0
	for k, v := range b.rows {
		rows = append(rows, M{"entry": k, "n": v[0], "ok": v[1], "err": v[2], "other": v[3]})
		n += v[0]
		r.Count("calls_with_value", v[1])
		r.Count("calls_with_error", v[2])
	}
	r.Count("calls", n)
	sort.Slice(rows, func(i, j int) bool { return rows[i]["entry"].(string) < rows[j]["entry"].(string) })
	r.Emit(M{"id": id, "k": "calls", "rows": rows, "bad": b.bad})
	if !ok {
		r.halt()
	}
}

// totalBody makes a body for an entry: close to a valid one, or not.
func (g *gen) totalBody(e totalEntry) (body []byte) {
	_ = call(func() {
		buf := bytes.NewBuffer(nil)
		i := strings.LastIndexAny(e.name, ". ")
		t := e.name[i+1:]
		switch e.fam {
		case "nmdc":
			if v := nmdcBodies[t]; len(v) != 0 && chance(g.Rand, 0.3) {
				body = []byte(v[g.Intn(len(v))])
				return
			}
			if toks := nmdcTokens[t]; toks != nil && chance(g.Rand, 0.2) {
				a := make([]string, g.Intn(9))
				for j := range a {
					a[j] = g.one(toks)
				}
				body = tokenBody(t, a)
				return
			}
			if t == "Unmarshal" {
				body = g.frame()
				return
			}
			if t == "Raw" || chance(g.Rand, 0.05) {
				t = nmdcTypes[g.Intn(len(nmdcTypes)-1)]
			}
			_ = g.msg(t).MarshalNMDC(encOf(g.cs), buf)
			body = buf.Bytes()
		case "adc":
			if adcNew[t] == nil || chance(g.Rand, 0.05) {
				t = adcMessages[g.Intn(len(adcMessages))]
			}
			if v := adcBodies[t]; len(v) != 0 && chance(g.Rand, 0.3) {
				body = []byte(v[g.Intn(len(v))])
				return
			}
			_ = adcEncode(g.adcValue(t), buf)
			body = buf.Bytes()
			if e.name != "adc."+t && chance(g.Rand, 0.3) {
				body = []byte(g.b32(pick(g.Rand, 39, 39, 4, 38, 40)))
			}
		case "packet":
			l := g.adcLine()
			if strings.HasPrefix(e.name, "adc.DecodePacket ") {
				if len(l) > 5 {
					l = bytes.TrimSuffix(l[5:], []byte("\n"))
				}
				if chance(g.Rand, 0.3) {
					l = append([]byte(g.b32(4)+" "), l...)
				}
			}
			body = l
		case "addr":
			body = []byte(g.one([]string{"adc://h:1/x?kp=y#z", "dchub://u:p@[::1]:411/", "nmdcs://h", "h", "h:1", "[::]:1/a%20", "adcs://a.b:2//?x=://"}))
		case "pem":
			data, _ := kpFile(g.Rand, []kpItem{{pickS(g.Rand, "cert", "key", "text", "broken", "headers"), []byte("abcdef")}, {"cert", []byte{1}}})
			body = data
		}
	})
	return body
}

const totalAlpha = "$$|| &<>?/\\:,.\x05()+-\n\t\r;=#@[]%_~0123456789aAbBZ\x00\x7f\x80\xc3\xff"

func (r *Run) totalRandom(i int) {
	rng := r.Rng(i)
	if i%16 == 0 {
		r.totalStream(i, rng)
		return
	}
	if i%16 == 1 {
		r.totalEncode(i, rng)
		return
	}
	g := &gen{Rand: rng, cs: charsets[rng.Intn(len(charsets))], wild: chance(rng, 0.3)}
	e := totalEntries[rng.Intn(len(totalEntries))]
	if i < len(totalEntries)*2 {
		e = totalEntries[i%len(totalEntries)]
	}
	r.totalCase(i, rng, func(b *totalBatch) {
		body := g.totalBody(e)
		if len(body) > 300 && !chance(rng, 0.02) {
			body = body[:300]
		}
		b.entry(e, body)
		// all that is cut off somewhere
		for k := range body {
			b.entry(e, body[:k])
			b.entry(e, body[k:])
		}
		// a byte replaced, lost or added, everywhere
		for k := 0; k < len(body) && k < 400; k++ {
			x := cp(body)
			x[k] = totalAlpha[rng.Intn(len(totalAlpha))]
			b.entry(e, x)
			b.entry(e, append(x[:k:k], body[k+1:]...))
			b.entry(e, append(append(x[:k:k], totalAlpha[rng.Intn(len(totalAlpha))]), body[k:]...))
		}
		for k := 0; k < 20; k++ {
			x := g.mutate(body)
			if e.fam == "adc" || e.fam == "packet" {
				x = g.adcMutate(x)
			}
			b.entry(e, x)
			x = g.mutate(g.mutate(x))
			b.entry(e, x)
		}
		for k := 0; k < 20; k++ {
			b.entry(e, randBytes(rng, rng.Intn(20), totalAlpha))
			b.entry(e, randBytes(rng, rng.Intn(8), ""))
		}
		if chance(rng, 0.02) {
			// a long one
			piece := randBytes(rng, 1+rng.Intn(4), totalAlpha)
			b.entry(e, bytes.Repeat(piece, 20000))
			b.entry(e, append(cp(body), bytes.Repeat(piece, 10000)...))
		}
	})
}

// fill sets a value to anything.
func (g *gen) fillAny(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(string(g.bytesAny()))
	case reflect.Bool:
		v.SetBool(chance(g.Rand, 0.5))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := []int64{0, 1, -1, int64(g.Intn(300)), -1 << 63, 1<<63 - 1, int64(g.Uint64())}[g.Intn(7)]
		v.SetInt(x >> (64 - v.Type().Bits()))
		if chance(g.Rand, 0.3) {
			v.SetInt(int64(g.Intn(100)))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint([]uint64{0, 1, uint64(g.Intn(300)), 1<<64 - 1, g.Uint64()}[g.Intn(5)] >> (64 - v.Type().Bits()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fillAny(v.Index(i))
		}
	case reflect.Slice:
		if chance(g.Rand, 0.2) {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.bytesAny())
			return
		}
		s := reflect.MakeSlice(v.Type(), g.Intn(4), 8)
		for i := 0; i < s.Len(); i++ {
			g.fillAny(s.Index(i))
		}
		v.Set(s)
	case reflect.Map:
		if chance(g.Rand, 0.2) {
			return
		}
		m := reflect.MakeMap(v.Type())
		for n := g.Intn(4); n > 0; n-- {
			k, x := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.fillAny(k)
			g.fillAny(x)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case reflect.Ptr:
		if chance(g.Rand, 0.7) {
			p := reflect.New(v.Type().Elem())
			g.fillAny(p.Elem())
			v.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() && !chance(g.Rand, 0.2) {
				g.fillAny(f)
			}
		}
	}
}

func (g *gen) bytesAny() []byte {
	switch g.Intn(5) {
	case 0:
		return nil
	case 1:
		return randBytes(g.Rand, g.Intn(12), "")
	case 2:
		return randBytes(g.Rand, g.Intn(12), totalAlpha)
	case 3:
		return randBytes(g.Rand, g.Intn(400), totalAlpha)
	}
	return []byte(g.text())
}

// adcOdd is a message with fields of kinds that have no encoding.
type adcOdd struct {
	P []byte            `adc:"PP"`
	M map[string]int    `adc:"MM"`
	S struct{ A []int } `adc:"SS"`
	F func()            `adc:"FF"`
	E interface{}       `adc:"EE"`
	D float64           `adc:"DD"`
	Q **int             `adc:"QQ"`
	L [][]byte          `adc:"LL"`
	B [3]byte           `adc:"BB"`
	Y int8              `adc:"YY"`
	C *map[string]int   `adc:"CC"`
}

func (adcOdd) Cmd() adc.MsgType { return adc.MsgType{'O', 'D', 'D'} }

// totalEncode encodes any values of every message.
func (r *Run) totalEncode(i int, rng *rand.Rand) {
	g := &gen{Rand: rng, cs: charsets[rng.Intn(len(charsets))], wild: true}
	r.totalCase(i, rng, func(b *totalBatch) {
		for k := 0; k < 3; k++ {
			for _, t := range nmdcTypes {
				m := newNmdc(t)
				g.fillAny(reflect.ValueOf(m).Elem())
				js, _ := json.Marshal(dumpNmdc(m))
				b.call("encoding nmdc."+t, js, func([]byte) error {
					buf := bytes.NewBuffer(nil)
					if l, ok := m.(*nmdc.Lock); ok {
						_ = l.Key()
						_ = l.CustomKey(byte(rng.Intn(256)), chance(rng, 0.5))
					}
					_, err := nmdc.Marshal(encOf(g.cs), m)
					if err != nil {
						return err
					}
					return nmdc.MarshalTo(encOf(g.cs), buf, m)
				})
			}
			for _, one := range []bool{false, true} {
				o := new(adcOdd)
				if ov := reflect.ValueOf(o).Elem(); one {
					g.fillAny(ov.Field(rng.Intn(ov.NumField())))
				} else {
					g.fillAny(ov)
				}
				b.call("encoding a message with fields of other kinds", nil, func([]byte) error { return adc.Marshal(bytes.NewBuffer(nil), o) })
			}
			for _, t := range append(append([]string{}, adcMessages...), adcValues...) {
				o := adcNew[t]()
				g.fillAny(reflect.ValueOf(o).Elem())
				js, _ := json.Marshal(o)
				b.call("encoding adc."+t, js, func([]byte) error { return adcEncode(o, bytes.NewBuffer(nil)) })
				if m, ok := o.(adc.Message); ok {
					a := g.apk()
					b.call("encoding a packet of adc."+t, js, func([]byte) error { return adcMakePacket(a, m).MarshalPacketADC(bytes.NewBuffer(nil)) })
				}
			}
		}
	})
}

// totalStream reads a stream to its end.
func (r *Run) totalStream(i int, rng *rand.Rand) {
	g := &gen{Rand: rng, cs: charsets[rng.Intn(len(charsets))], wild: chance(rng, 0.3)}
	var wire []byte
	kind := pickS(rng, "line", "nmdc", "adc")
	for n := rng.Intn(12); n > 0; n-- {
		var f []byte
		switch kind {
		case "nmdc":
			f = append(g.frame(), '|')
		case "adc":
			f = g.adcLine()
		default:
			f = append(randBytes(rng, rng.Intn(20), "abc|$ "), '|')
		}
		if chance(rng, 0.3) {
			switch kind {
			case "nmdc":
				wire = append(wire, "$ZOn|"...)
			case "adc":
				wire = append(wire, "IZON\n"...)
			}
			f = zsection(rng, bytes.Repeat(f, 1+rng.Intn(300)), pick(rng, 0, 1, 9), true)
		}
		wire = append(wire, f...)
	}
	for n := pick(rng, 0, 0, 1, 2, 3); n > 0 && len(wire) > 0; n-- {
		k := rng.Intn(len(wire))
		switch rng.Intn(3) {
		case 0:
			wire[k] = byte(rng.Intn(256))
		case 1:
			wire = wire[:k]
		case 2:
			wire = append(append(cp(wire[:k]), wire[k/2:k]...), wire[k:]...)
		}
	}
	c := M{"id": i, "k": "stream", "kind": kind, "bytes": len(wire), "wire": cp(wire)}
	src := &scriptReader{data: wire, chunks: randChunks(rng, len(wire), false)}
	values := 0
	ends := map[string]bool{}
	last := "hang"
	step := func(fnc func() error) bool {
		var err error
		if p := call(func() {
			if err = fnc(); err != nil {
				_ = err.Error()
			}
		}); p != "" {
			last = p
		} else if err != nil {
			last = "error"
		} else {
			last = "value"
			values++
		}
		ends[last] = true
		return last == "value" && values < 1040*(len(wire)+2)
	}
	ok := guarded(func() {
		var next, fin func() error
		switch kind {
		case "line":
			rd := lineproto.NewReader(src, '|')
			rd.SetMaxLine(pick(rng, 10, 100, 4096, 1<<20))
			buf := make([]byte, 1+rng.Intn(9))
			next = func() error {
				switch rng.Intn(9) {
				case 0:
					_, err := rd.Read(buf)
					return err
				case 1:
					if chance(rng, 0.3) {
						if err := rd.EnableZlib(); err != nil {
							return err
						}
					}
				}
				_, err := rd.ReadLine()
				return err
			}
			fin = rd.Close
		case "nmdc":
			rd := nmdc.NewReader(src)
			rd.SetDecoder(decOf(g.cs))
			if chance(rng, 0.5) {
				rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) { return decOf(charsets[1+rng.Intn(len(charsets)-1)]), nil }
			}
			typed := chance(rng, 0.2)
			next = func() error {
				if typed && chance(rng, 0.5) {
					return rd.ReadMsgTo(newNmdc(nmdcTypes[rng.Intn(len(nmdcTypes)-1)]))
				}
				_, err := rd.ReadMsg()
				return err
			}
			fin = rd.Close
		case "adc":
			rd := adc.NewReader(src)
			next = func() error {
				var err error
				switch rng.Intn(4) {
				case 0, 1:
					_, err = rd.ReadPacket()
				case 2:
					_, err = rd.ReadPacketRaw()
				case 3:
					if chance(rng, 0.2) {
						_, err = rd.ReadInfo()
					} else {
						_, err = rd.ReadPacketRaw()
					}
				}
				return err
			}
			fin = rd.Close
		}
		for step(next) {
		}
		// errors of single messages do not end a stream
		for k := 0; k < 60 && last == "error"; k++ {
			for step(next) {
			}
		}
		end := last
		_ = step(fin)
		_ = step(next)
		values -= 2 // the last two are no messages
		if values < 0 {
			values = 0
		}
		last = end
	})
	if !ok {
		last = "hang"
	}
	out := []string{}
	for k := range ends {
		out = append(out, k)
	}
	sort.Strings(out)
	if !ok {
		out = []string{"hang"}
	}
	c["ends"], c["last"], c["values"] = out, last, values
	r.Count("streams", 1)
	r.Emit(c)
	if !ok {
		r.halt()
	}
}

func suiteTotal(r *Run) {
	if r.In != "" {
		var lines []struct {
			Fam  string   `json:"fam"`
			Body []string `json:"body"`
		}
		for _, l := range readLines(r.In) {
			lines = append(lines, struct {
				Fam  string   `json:"fam"`
				Body []string `json:"body"`
			}{})
			must(json.Unmarshal(l, &lines[len(lines)-1]))
		}
		const per = 50
		for i := 0; i*per < len(lines); i++ {
			rng := r.Rng(i)
			r.totalCase([]interface{}{"model", i}, rng, func(b *totalBatch) {
				for _, l := range lines[i*per : min(len(lines), (i+1)*per)] {
					in := []byte(strings.Join(l.Body, ""))
					for _, e := range totalEntries {
						if e.fam == l.Fam || e.fam == "packet" && l.Fam == "adc" {
							b.entry(e, in)
						}
					}
				}
			})
		}
		return
	}
	r.each(r.totalRandom)
}
