package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

// Two peers, each with a writer and a reader, over a transport that blocks when it is empty.

func init() { suites["duplex"] = suiteDuplex }

// dxPipe is one direction of the transport.
type dxPipe struct {
	s      *dxSession
	d      int
	buf    []byte
	closed bool
	cut    int // how reads are cut
	idle   bool
	ended  bool // nobody reads any more
}

func (p *dxPipe) Write(b []byte) (int, error) {
	yield()
	p.buf = append(p.buf, b...)
	p.idle = false
	yield()
	return len(b), nil
}

func (p *dxPipe) Read(b []byte) (int, error) {
	yield()
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.buf) == 0 && !p.closed {
		p.idle = true
		need := 1
		if p.s.done[p.d-1] {
			need = 0
		}
		p.s.ev(M{"k": "w", "d": p.d, "need": need})
		for len(p.buf) == 0 && !p.closed {
			yield()
		}
		p.idle = false
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	if p.cut == 3 && chance(p.s.rng, 0.2) {
		return 0, nil
	}
	n := len(p.buf)
	switch p.cut {
	case 0:
		n = 1
	case 2, 3:
		n = 1 + p.s.rng.Intn(n)
	}
	n = copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	if p.closed && len(p.buf) == 0 && chance(p.s.rng, 0.3) {
		return n, io.EOF
	}
	return n, nil
}

// dxOp is what one side does: "m" message, "k" keep-alive, "b" bytes of a block, "f" flush, "z" switch compression on,
// "o" off, "p" a message that the other side answers.
type dxOp struct {
	op    string
	n     int // size
	raw   bool
	first int // size of the block that starts here
}

type dxSession struct {
	*gen
	rng     *rand.Rand
	proto   string
	evs     []M
	pipe    [2]*dxPipe
	scripts int // sides that still have something to do
	todo    [2]int
	done    [2]bool // the current call of the reader needs nothing more
	bufSize int
	rich    bool
}

func (s *dxSession) ev(m M) { s.evs = append(s.evs, m) }

// zhead is the head of a compressed section.
var zhead = []int{-1}

// unitOf identifies a line or message; bytes of blocks are units below 256.
func unitOf(line []byte) []int {
	h := fnv.New32a()
	h.Write(line)
	return []int{256 + int(h.Sum32()&0x3fffffff)}
}

func bytesOf(b []byte) []int {
	out := make([]int, 0, len(b))
	for _, c := range b {
		out = append(out, int(c))
	}
	return out
}

// got records what was handed out.
func (s *dxSession) got(d int, line []byte) {
	s.ev(M{"k": "r", "d": d, "v": unitOf(line), "text": fmt.Sprintf("%.20q", line)})
}

func (s *dxSession) gotBytes(d int, b []byte) {
	if n := len(s.evs); n > 0 {
		if e := s.evs[n-1]; e["k"] == "r" && e["d"] == d && e["text"] == nil {
			e["v"] = append(e["v"].([]int), bytesOf(b)...)
			return
		}
	}
	s.ev(M{"k": "r", "d": d, "v": bytesOf(b)})
}

// dxWriter is the writing half of a side.
type dxWriter struct {
	s     *dxSession
	d     int
	delim byte
	lw    *lineproto.Writer
	nw    *nmdc.Writer
	aw    *adc.Writer
	zon   bool
	fail  bool
	bytes bool // what is written are bytes of a block
	head  bool // the head of a compressed section follows the line
}

// onLine records what is accepted.
func (w *dxWriter) onLine(line []byte) (bool, error) {
	if w.bytes {
		w.s.ev(M{"k": "s", "d": w.d, "v": bytesOf(line)})
	} else {
		w.s.ev(M{"k": "s", "d": w.d, "v": unitOf(line), "text": fmt.Sprintf("%.20q", line)})
		if w.head {
			w.s.ev(M{"k": "s", "d": w.d, "v": zhead, "text": "head"})
		}
	}
	return true, nil
}

func (w *dxWriter) do(flushed bool, what string, fnc func() error) {
	ev := ""
	if flushed {
		ev = "f"
	}
	w.call(ev, what, fnc)
}

// call makes a call and records ev when it succeeds.
func (w *dxWriter) call(ev string, what string, fnc func() error) {
	if w.fail {
		return
	}
	yield()
	var err error
	p := call(func() { err = fnc() })
	yield()
	if err != nil || p != "" {
		w.s.ev(M{"k": "x", "d": w.d, "what": what, "text": fmt.Sprint(err, p)})
		w.fail = true
	} else if ev != "" {
		w.s.ev(M{"k": ev, "d": w.d})
	}
}

// line sends a line of its own.
func (w *dxWriter) line(line []byte) {
	w.do(false, "WriteLine", func() error { return w.lw.WriteLine(line) })
}

func (w *dxWriter) message(n int) {
	s := w.s
	switch s.proto {
	case "line":
		w.line(append(randBytes(s.rng, n, "abc \r\x00$"), w.delim))
	case "nmdc":
		var m nmdc.Message = &nmdc.ChatMessage{Name: "nick", Text: strings.Repeat("text ", n/5) + "."}
		if s.rich && n < 200 {
			m = s.msg(nmdcRich[s.rng.Intn(len(nmdcRich))])
		}
		b, err := nmdc.Marshal(nil, m)
		if err != nil {
			return
		}
		m2, err := nmdc.Unmarshal(nil, b)
		if err != nil {
			return
		}
		switch m2.(type) { // these mean something here
		case *nmdc.ADCSnd, *nmdc.ZOn:
			return
		case *nmdc.ChatMessage:
			if strings.HasPrefix(string(b), "<ping>") {
				return
			}
		}
		w.do(false, "WriteMsg", func() error { return w.nw.WriteMsg(m) })
	case "adc":
		a := s.apk()
		var m adc.Message = &adc.ChatMessage{Text: strings.Repeat("text ", n/5)}
		if s.rich && n < 200 {
			_, m = s.anyMsg()
		}
		cmd := m.Cmd()
		a.Cmd = cp(cmd[:])
		p := adcMakePacket(a, m)
		var buf bytes.Buffer
		if p.MarshalPacketADC(&buf) != nil {
			return
		}
		if _, err := adc.DecodePacket(cp(buf.Bytes())); err != nil || cmd == (adc.GetResponse{}).Cmd() || cmd == (adc.ZOn{}).Cmd() || a.Kind == 'H' {
			return
		}
		w.do(false, "WritePacket", func() error { return w.aw.WritePacket(p) })
	}
}

// announce tells the peer that a block of n bytes follows; "ping" and "pong" have no block.
func (w *dxWriter) announce(what string, n int) {
	switch w.s.proto {
	case "line":
		w.line([]byte(what + " " + strconv.Itoa(n) + string(w.delim)))
	case "nmdc":
		var m nmdc.Message = &nmdc.ChatMessage{Name: what, Text: "."}
		if what == "block" {
			m = &nmdc.ADCSnd{ContentType: nmdc.String("file"), Identifier: nmdc.String("files.xml"), Start: 0, Length: uint64(n)}
		}
		w.do(false, "WriteMsg", func() error { return w.nw.WriteMsg(m) })
	case "adc":
		var m adc.Message = &adc.ChatMessage{Text: what}
		if what == "block" {
			m = &adc.GetResponse{Type: "file", Path: "files.xml", Bytes: int64(n)}
		}
		w.do(false, "WriteHub", func() error { return w.aw.WriteHub(m) })
	}
}

func (w *dxWriter) on(lvl int) {
	w.head = true
	switch w.s.proto {
	case "line":
		w.line([]byte("zon" + string(w.delim)))
		w.call("z", "EnableZlib", func() error { return w.lw.EnableZlibLevel(lvl) })
	case "nmdc":
		w.call("z", "ZOn", func() error { return w.nw.ZOnLevel(lvl) })
	case "adc":
		w.do(false, "WriteHub", func() error { return w.aw.WriteHub(adc.ZOn{}) })
		w.call("z", "EnableZlib", func() error { return w.lw.EnableZlibLevel(lvl) })
	}
	w.head = false
	w.zon = true
}

func (w *dxWriter) flush() {
	w.do(true, "Flush", func() error {
		switch {
		case w.aw != nil:
			return w.aw.Flush()
		case w.nw != nil:
			return w.nw.Flush()
		}
		return w.lw.Flush()
	})
}

func (w *dxWriter) run(ops []dxOp) {
	s := w.s
	answer := func() {
		for ; s.todo[w.d-1] > 0; s.todo[w.d-1]-- {
			w.announce("pong", 0)
			w.flush()
		}
	}
	left := 0 // of the block
	for _, o := range ops {
		if left == 0 {
			answer()
		}
		if o.first > 0 {
			w.announce("block", o.first)
			left = o.first
		}
		switch o.op {
		case "m":
			w.message(o.n)
		case "p":
			w.announce("ping", 0)
			w.flush()
		case "k":
			b := []byte{w.delim}
			w.do(false, "WriteKeepAlive", func() error {
				switch {
				case w.aw != nil:
					return w.aw.WriteKeepAlive()
				case w.nw != nil:
					return w.nw.WriteKeepAlive()
				}
				return w.lw.WriteLine(b)
			})
		case "b":
			left -= o.n
			b := randBytes(s.rng, o.n, "")
			w.bytes = true
			if o.raw {
				w.do(!w.zon, "Write", func() error {
					_, _ = w.onLine(b)
					n, err := w.lw.Write(b)
					if err == nil && n != len(b) {
						err = io.ErrShortWrite
					}
					return err
				})
			} else {
				w.do(false, "WriteLine", func() error { return w.lw.WriteLine(b) })
			}
			w.bytes = false
		case "f":
			w.flush()
		case "z":
			if !w.zon {
				w.on(o.n)
			}
		case "o":
			if w.zon {
				w.do(true, "DisableZlib", w.lw.DisableZlib)
				w.zon = false
			}
		}
	}
	s.scripts--
	other := s.pipe[2-w.d]
	mine := s.pipe[w.d-1]
	for {
		answer()
		quiet := func(p *dxPipe) bool { return p.closed || p.ended || p.idle && len(p.buf) == 0 }
		if s.scripts == 0 && s.todo[0] == 0 && s.todo[1] == 0 && quiet(mine) && quiet(other) {
			break
		}
		yield()
	}
	w.do(false, "Close", w.lw.Close)
	s.ev(M{"k": "c", "d": w.d})
	mine.closed = true
}

// read is the reading half of a side.
func (s *dxSession) read(d int, delim byte) {
	p := s.pipe[d-1]
	defer func() { p.ended = true }()
	got := func(line []byte) { s.got(d, line) }
	lr := (*lineproto.Reader)(nil)
	var last []byte
	var next func() error // reads a line, message or packet
	block, zon, ping := 0, false, false
	keep := func() error { got([]byte{delim}); return nil }
	hook := s.rng.Intn(2) == 0
	switch s.proto {
	case "line":
		lr = lineproto.NewReader(p, delim)
		next = func() error {
			line, err := lr.ReadLine()
			if err != nil {
				return err
			}
			var n int
			if k, _ := fmt.Sscanf(string(line), "block %d", &n); k == 1 {
				block = n
			}
			zon = string(line) == "zon"+string(delim)
			ping = strings.HasPrefix(string(line), "ping")
			last = cp(line)
			return nil
		}
	case "nmdc":
		r := nmdc.NewReader(p)
		r.OnKeepAlive = keep
		lr = r.Reader
		r.OnLine(func(line []byte) (bool, error) { last = cp(line); return true, nil })
		if hook {
			// as clients do: compression is switched on in a hook
			r.OnMessage(func(m nmdc.Message) (bool, error) {
				if _, ok := m.(*nmdc.ZOn); ok {
					got(last)
					if err := r.EnableZlib(); err != nil {
						return false, err
					}
					s.ev(M{"k": "r", "d": d, "v": zhead, "text": "head"})
					return false, nil
				}
				return true, nil
			})
		}
		next = func() error {
			m, err := r.ReadMsg()
			if err != nil {
				return err
			}
			switch m := m.(type) {
			case *nmdc.ADCSnd:
				block = int(m.Length)
			case *nmdc.ZOn:
				zon = true
			case *nmdc.ChatMessage:
				ping = m.Name == "ping"
			}
			return nil
		}
	case "adc":
		r := adc.NewReader(p)
		r.OnKeepAlive = keep
		lr = r.Reader
		r.OnLine(func(line []byte) (bool, error) { last = cp(line); return true, nil })
		next = func() error {
			var k adc.Packet
			var err error
			if s.rng.Intn(2) == 0 {
				k, err = r.ReadPacket()
			} else {
				k, err = r.ReadPacketRaw()
				if err == nil {
					err = k.DecodeMessage()
				}
			}
			if err != nil {
				return err
			}
			switch m := k.Message().(type) {
			case adc.GetResponse:
				block = int(m.Bytes)
			case adc.ZOn:
				zon = true
			case adc.ChatMessage:
				ping = k.Kind() == 'H' && m.Text == "ping"
			}
			return nil
		}
	}
	fail := func(what string, err interface{}) { s.ev(M{"k": "x", "d": d, "what": what, "text": fmt.Sprint(err)}) }
	for {
		yield()
		block, zon, ping = 0, false, false
		var err error
		if p := call(func() { err = next() }); p != "" {
			fail("read", p)
			return
		}
		if err == io.EOF {
			s.ev(M{"k": "e", "d": d})
			return
		} else if err != nil {
			fail("read", err)
			return
		}
		got(last)
		if ping {
			s.todo[2-d]++
		}
		if zon {
			if p := call(func() { err = lr.EnableZlib() }); p != "" || err != nil {
				fail("EnableZlib", fmt.Sprint(p, err))
				return
			}
			s.ev(M{"k": "r", "d": d, "v": zhead, "text": "head"})
		}
		if block == 0 {
			continue
		}
		if p := call(func() { err = s.block(d, lr, block) }); p != "" || err != nil {
			fail("block", fmt.Sprint(p, err))
			return
		}
	}
}

// block reads a binary block.
func (s *dxSession) block(d int, lr *lineproto.Reader, n int) error {
	var r io.Reader = lr
	var c io.Closer
	left := n
	if s.rng.Intn(3) != 0 {
		b, err := lr.Binary(uint64(n))
		if err != nil {
			return err
		}
		r, c = b, b
		if chance(s.rng, 0.2) {
			left = s.rng.Intn(n + 1) // the rest is left to Close
		}
	}
	max := pick(s.rng, 1, 7, 64, 5000)
	skip := n - left
	for tries := 0; left > 0; {
		m := 1 + s.rng.Intn(max)
		if c == nil || skip > 0 {
			if m > left {
				m = left
			}
		}
		buf := make([]byte, m)
		k, err := r.Read(buf)
		if k > 0 {
			s.gotBytes(d, buf[:k])
			tries = 0
		} else if tries++; tries > 1000 {
			return io.ErrNoProgress
		}
		left -= k
		if err != nil {
			if err == io.EOF && left == 0 {
				break
			}
			return fmt.Errorf("%v, %d bytes missing", err, left)
		}
	}
	if c != nil {
		if skip > 0 {
			s.ev(M{"k": "q", "d": d, "n": skip})
		}
		s.done[d-1] = true
		defer func() { s.done[d-1] = false }()
		if skip == 0 && chance(s.rng, 0.5) {
			// a block that was read has ended, which does not need later bytes
			if k, err := r.Read(make([]byte, 10)); k != 0 || err != io.EOF {
				return fmt.Errorf("read at the end of a block: %d %v", k, err)
			}
		}
		return c.Close()
	}
	return nil
}

// blocks divides what is sent as bytes into announced blocks.
func dxBlocks(ops []dxOp) []dxOp {
	start := -1
	for i := range ops {
		switch ops[i].op {
		case "b":
			if start < 0 {
				start = i
			}
			ops[start].first += ops[i].n
		case "f", "o":
		default:
			start = -1
		}
	}
	return ops
}

func (s *dxSession) ops(names []string) []dxOp {
	var out []dxOp
	for _, o := range names {
		x := dxOp{op: o}
		switch o {
		case "m":
			x.n = pick(s.rng, 0, 1, 10, 50, 50, 300, 2040+s.rng.Intn(20), 4090+s.rng.Intn(10), 9000)
		case "b":
			x.n = pick(s.rng, 1, 1, 5, 50, 300, 2048, 4096, 5000)
			if chance(s.rng, 0.7) {
				x.n = 1 + s.rng.Intn(80)
			}
			x.raw = s.rng.Intn(3) != 0
		case "z":
			x.n = s.rng.Intn(12) - 2
		}
		out = append(out, x)
	}
	return dxBlocks(out)
}

func (s *dxSession) randomOps() []string {
	var out []string
	for n := s.rng.Intn(14); n > 0; n-- {
		out = append(out, pickS(s.rng, "m", "m", "m", "m", "f", "f", "f", "b", "b", "k", "z", "o", "p"))
	}
	return out
}

func (r *Run) duplex(id interface{}, rng *rand.Rand, names [2][]string) {
	s := &dxSession{rng: rng, gen: &gen{Rand: rng, cs: "utf8"}, proto: pickS(rng, "line", "nmdc", "adc"), evs: []M{}, scripts: 2, rich: chance(rng, 0.6)}
	delim := byte('|')
	if s.proto == "adc" || s.proto == "line" && chance(rng, 0.5) {
		delim = '\n'
	}
	size := pick(rng, 0, 0, 16, 100, 4096)
	for d := 0; d < 2; d++ {
		s.pipe[d] = &dxPipe{s: s, d: d + 1, cut: rng.Intn(4)}
	}
	var fncs []func()
	for d := 1; d <= 2; d++ {
		d := d
		ops := s.ops(names[d-1])
		for _, o := range ops {
			r.Count("op_"+o.op, 1)
		}
		w := &dxWriter{s: s, d: d, delim: delim}
		switch s.proto {
		case "line":
			w.lw = lineproto.NewWriterSize(s.pipe[d-1], size)
		case "nmdc":
			w.nw = nmdc.NewWriterSize(s.pipe[d-1], size)
			w.lw = w.nw.Writer
		case "adc":
			w.aw = adc.NewWriterSize(s.pipe[d-1], size)
			w.lw = w.aw.Writer
		}
		w.lw.OnLine(w.onLine)
		fncs = append(fncs, func() { w.run(ops) }, func() { s.read(d, delim) })
	}
	r.Count("proto_"+s.proto, 1)
	var plan []int
	if rng.Intn(3) == 0 { // the readers first wherever they can
		for i := 0; i < 3000; i++ {
			plan = append(plan, []int{1, 3, 0, 2}[i%4])
		}
	}
	if !guarded(func() { r.Count("switches", interleave(rng, plan, fncs)) }) {
		r.Emit(M{"id": id, "proto": s.proto, "ev": append(append([]M{}, s.evs...), M{"k": "hang", "d": 1})})
		r.halt()
		return
	}
	r.Count("events", len(s.evs))
	r.Emit(M{"id": id, "proto": s.proto, "ev": s.evs})
}

func suiteDuplex(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var sc struct {
				Ops []string `json:"ops"`
			}
			must(json.Unmarshal(l, &sc))
			rng := r.Rng(1000000 + i)
			names := [2][]string{sc.Ops, s2(rng)}
			if rng.Intn(2) == 0 {
				names[0], names[1] = names[1], names[0]
			}
			r.duplex([]interface{}{"model", i}, rng, names)
			if r.stopped() {
				return
			}
		}
		return
	}
	for i := 0; i < r.N && !r.stopped(); i++ {
		rng := r.Rng(i)
		s := &dxSession{rng: rng}
		r.duplex(i, rng, [2][]string{s.randomOps(), s.randomOps()})
	}
}

// s2 is what the other side does meanwhile.
func s2(rng *rand.Rand) []string {
	return [][]string{{}, {"m", "f"}, {"p"}, {"z", "m", "f"}, {"b", "b", "f"}}[rng.Intn(5)]
}
