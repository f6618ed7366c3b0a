package main

import (
	"bytes"
	"compress/zlib"
	"encoding/json"
	"io"
	"math/rand"

	"github.com/direct-connect/go-dc/lineproto"
)

func init() { suites["reader"] = suiteReader }

// chunk is one result of a transport read.
type chunk struct {
	n   int   // bytes
	err error // returned together with the last of these bytes
}

// scriptReader delivers data in scripted pieces.
type scriptReader struct {
	data   []byte
	off    int
	chunks []chunk
	asks   []int // how much was delivered when the reader asked for more
	calls  int
}

func (s *scriptReader) Read(p []byte) (int, error) {
	yield()
	defer yield()
	s.asks = append(s.asks, s.off)
	s.calls++
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if len(s.chunks) == 0 {
			if s.off >= len(s.data) {
				return 0, io.EOF
			}
			s.chunks = []chunk{{n: len(s.data) - s.off}}
		}
		c := &s.chunks[0]
		if c.n > len(s.data)-s.off {
			c.n = len(s.data) - s.off
		}
		n := copy(p, s.data[s.off:s.off+c.n])
		s.off += n
		c.n -= n
		if c.n > 0 {
			return n, nil
		}
		err := c.err
		s.chunks = s.chunks[1:]
		return n, err
	}
}

func randChunks(rng *rand.Rand, total int, tmps bool) []chunk {
	var out []chunk
	mode := rng.Intn(7)
	left := total
	for left > 0 {
		var n int
		switch mode {
		case 0:
			n = left
		case 1:
			n = 1
		case 2:
			n = 1 + rng.Intn(8)
		case 3:
			n = 1 + rng.Intn(2*readBuf)
		case 4:
			n = pick(rng, readBuf-1, readBuf, readBuf+1, 2*readBuf, 1)
		case 5:
			n = 1 + rng.Intn(left)
		case 6:
			if chance(rng, 0.7) {
				n = 1 + rng.Intn(3)
			} else {
				n = 1 + rng.Intn(1000)
			}
		}
		if n > left {
			n = left
		}
		if mode != 0 && chance(rng, 0.1) {
			out = append(out, chunk{}) // empty read
		}
		if tmps && chance(rng, 0.15) {
			out = append(out, chunk{err: errTmp})
		}
		c := chunk{n: n}
		if tmps && chance(rng, 0.05) {
			c.err = errTmp
		}
		left -= n
		if left == 0 && chance(rng, 0.4) {
			c.err = io.EOF
		}
		out = append(out, c)
	}
	if tmps && chance(rng, 0.3) {
		out = append(out, chunk{err: errTmp})
	}
	return out
}

// zsection deflates data the way a peer may do it.
func zsection(rng *rand.Rand, data []byte, lvl int, flushes bool) []byte {
	var buf bytes.Buffer
	w, err := zlib.NewWriterLevel(&buf, lvl)
	must(err)
	for len(data) > 0 {
		n := len(data)
		if flushes {
			n = 1 + rng.Intn(len(data))
		}
		_, err := w.Write(data[:n])
		must(err)
		data = data[n:]
		if flushes && chance(rng, 0.5) {
			must(w.Flush())
		}
	}
	must(w.Close())
	return buf.Bytes()
}

type rdZone struct {
	D   B      `json:"d"`
	ZL  int    `json:"zl"`
	Bad string `json:"bad"`
}

type rdSession struct {
	zones  []rdZone
	wire   []byte
	chunks []chunk
	delim  byte
	lim    int // 0: leave the default; <0 none (-2: ask for 0)
	hooks  int
	verd   func(h int, line []byte) string
	ops    func(s *rdState) M // next operation, nil at the end
}

// rdState is what the mirroring side knows.
type rdState struct {
	k, off int // current zone, bytes of it consumed
	zones  []rdZone
	delim  byte
	n      int // operations so far
	last   string
	eofs   int
	closed bool
}

func (s *rdState) rest() []byte { return s.zones[s.k].D[min(s.off, len(s.zones[s.k].D)):] }
func (s *rdState) final() bool  { return s.k == len(s.zones)-1 }
func (s *rdState) hasLine() bool {
	return bytes.IndexByte(s.rest(), s.delim) >= 0
}

const defLimit = 32768

// sizeProbe notes how much is asked for.
type sizeProbe int

func (p *sizeProbe) Read(b []byte) (int, error) {
	if len(b) > int(*p) {
		*p = sizeProbe(len(b))
	}
	return 0, io.EOF
}

// readBuf is the size of the read buffer: how much a line read asks the transport for.
var readBuf = func() int {
	var p sizeProbe
	_ = call(func() { _, _ = lineproto.NewReader(&p, '|').ReadLine() })
	if p > 8192 {
		p = 8192 // what is buffered has to be bounded
	}
	return int(p)
}()

func (r *Run) readerSession(id string, s *rdSession) {
	tr := &scriptReader{data: s.wire, chunks: s.chunks}
	lim := s.lim
	if lim == 0 {
		lim = defLimit
	}
	head := M{"id": id, "slack": readBuf, "zones": s.zones, "delim": int(s.delim), "lim": lim, "hooks": s.hooks,
		"plain": len(s.zones) == 1}
	r.Session(head, func(e *Events) {
		rd := lineproto.NewReader(tr, s.delim)
		if s.lim == -2 {
			rd.SetMaxLine(0)
		} else if s.lim != 0 {
			rd.SetMaxLine(s.lim)
		}
		log := []M{}
		hooks := 0
		addHook := func() {
			hooks++
			h := hooks
			rd.OnLine(func(line []byte) (bool, error) {
				yield()
				v := s.verd(h, line)
				log = append(log, M{"h": h, "d": cp(line), "r": v})
				switch v {
				case "drop":
					return false, nil
				case "err":
					return true, errHook
				}
				return true, nil
			})
		}
		for hooks < s.hooks {
			addHook()
		}
		st := &rdState{zones: s.zones, delim: s.delim}
		for {
			op := s.ops(st)
			if op == nil {
				return
			}
			if op["e"] == "addhook" {
				addHook()
				e.End(M{"e": "addhook"})
				continue
			}
			st.n++
			tr.asks = nil
			log = []M{}
			var got, dropped int
			alive := e.Do(op, func(m M) {
				switch m["e"] {
				case "line":
					d, err := rd.ReadLine()
					m["d"], m["err"] = cp(d), errClass(err)
					got = len(d)
					asks := tr.asks
					if !(len(s.zones) == 1) {
						asks = nil
					} else if len(asks) > 8 { // extremes are enough
						asks = append(append([]int{}, asks[:2]...), asks[len(asks)-6:]...)
					}
					if asks == nil {
						asks = []int{}
					}
					m["asks"] = asks
					m["log"] = log
					for _, l := range log {
						if l["r"] != "ok" {
							dropped += len(l["d"].(B))
						}
					}
				case "read":
					buf := make([]byte, m["n"].(int))
					n, err := rd.Read(buf)
					m["d"], m["err"] = cp(buf[:n]), errClass(err)
					got = n
				case "bin":
					sz := m["sz"].(int)
					big := uint64(sz)
					if e, ok := m["exp"].(int); ok {
						// more than there is either way
						if big += 1 << e; e > 30 {
							big = 1<<e + uint64(m["low"].(int))
						}
					}
					br, err := rd.Binary(big)
					if err != nil {
						m["d"], m["err"] = B{}, "other"
						return
					}
					buf := make([]byte, min(m["m"].(int), len(st.rest())+10))
					total := 0
					fail := ""
					for total < len(buf) {
						n, err := br.Read(buf[total:])
						total += n
						if err == io.EOF {
							break
						} else if err == errTmp {
							continue
						} else if err != nil {
							fail = errClass(err)
							break
						}
					}
					for fail == "" {
						err := br.Close()
						if err == errTmp {
							continue
						}
						fail = errClass(err)
						break
					}
					m["d"], m["err"] = cp(buf[:total]), fail
					got = min(sz, len(st.rest()))
				case "zon":
					err := rd.EnableZlib()
					if err == nil {
						m["err"] = ""
						if st.k+1 < len(st.zones) {
							st.k, st.off = st.k+1, 0
						}
					} else {
						m["err"] = "other"
					}
				case "max":
					rd.SetMaxLine(m["n"].(int))
					m["err"] = ""
				case "close":
					m["err"] = errClass(rd.Close())
					st.closed = true
				}
			})
			st.off += got + dropped
			st.last, _ = op["err"].(string)
			if st.last == "eof" {
				st.eofs++
			}
			if !alive {
				return
			}
		}
	})
	r.Count("ops", len(head["ev"].([]M)))
}

func randLine(rng *rand.Rand, delim byte, n int) B {
	b := make(B, n)
	for i := range b {
		b[i] = "abcdefgh$ <>|\n\r\x00\xff"[rng.Intn(17)]
		if b[i] == delim {
			b[i] = 'z'
		}
	}
	return append(b, delim)
}

// writerWire has the real writer produce the stream of the zones.
func writerWire(rng *rand.Rand, zones []rdZone) []byte {
	var buf bytes.Buffer
	w := lineproto.NewWriterSize(&buf, pick(rng, 0, 16, 100))
	put := func(d []byte) {
		for len(d) > 0 {
			n := 1 + rng.Intn(len(d))
			if chance(rng, 0.5) {
				n = min(n, 1+rng.Intn(20))
			}
			if chance(rng, 0.6) {
				want(w.WriteLine(d[:n]))
			} else {
				_, err := w.Write(d[:n])
				want(err)
			}
			if chance(rng, 0.2) {
				want(w.Flush())
			}
			d = d[n:]
		}
	}
	for i, z := range zones {
		if i > 0 {
			want(w.EnableZlibLevel(rng.Intn(12) - 2))
			put(z.D[:z.ZL])
			want(w.DisableZlib())
		}
		put(z.D[z.ZL:])
	}
	if chance(rng, 0.5) {
		want(w.Flush())
	} else {
		want(w.Close())
	}
	return buf.Bytes()
}

// randContent makes some lines, possibly with an unfinished tail.
func randContent(rng *rand.Rand, delim byte, lim int, lines int, long bool) B {
	var out B
	for i := 0; i < lines; i++ {
		var n int
		switch x := rng.Intn(12); {
		case x < 2:
			n = 0
		case x < 8 || !long:
			n = rng.Intn(30)
		case x < 10:
			n = readBuf*(1+rng.Intn(2)) - 3 + rng.Intn(6)
		default:
			if lim > 0 && lim < 8000 {
				n = lim - 3 + rng.Intn(6)
				if chance(rng, 0.3) {
					n = lim + readBuf - 3 + rng.Intn(6)
				}
				if n < 0 {
					n = 0
				}
			} else {
				n = rng.Intn(5000)
			}
		}
		out = append(out, randLine(rng, delim, n)...)
	}
	return out
}

func (r *Run) readerRandom(id int) {
	rng := r.Rng(id)
	s := &rdSession{delim: byte(pick(rng, '|', '\n', 0))}
	prof := r.Profile
	if prof == "C13" {
		prof = []string{"C01", "C02", "C03", "C07"}[rng.Intn(4)]
	}
	switch rng.Intn(6) {
	case 0:
		s.lim = 0
	case 1:
		s.lim = pick(rng, -1, -2)
	default:
		s.lim = pick(rng, 1, 2, 5, 16, 100, readBuf-1, readBuf, readBuf+1, 2*readBuf, 5000)
	}
	if prof != "C02" && rng.Intn(3) != 0 {
		s.lim = pick(rng, 0, -1, -2, 100000)
	}
	long := chance(rng, 0.5)
	nz := 0
	if prof == "C03" {
		nz = 1 + rng.Intn(4)
	} else if chance(rng, 0.3) {
		nz = 1 + rng.Intn(2)
	}
	tail := func() B {
		if chance(rng, 0.5) {
			return nil
		}
		return randLine(rng, s.delim, rng.Intn(20))[1:]
	}
	plain := randContent(rng, s.delim, s.lim, 1+rng.Intn(5), long)
	if nz == 0 {
		plain = append(plain, randLine(rng, s.delim, pick(rng, 0, 1, 10, 3000))...)
		if chance(rng, 0.6) {
			plain = plain[:len(plain)-1] // unfinished tail
		}
	} else if chance(rng, 0.3) {
		plain = append(plain, tail()...)
	}
	s.zones = append(s.zones, rdZone{D: plain})
	s.wire = append(s.wire, plain...)
	for i := 0; i < nz; i++ {
		var z B
		switch rng.Intn(6) {
		case 0: // empty section
		case 1:
			z = randBytes(rng, rng.Intn(6000), "")
			if chance(rng, 0.05) {
				// more than the window of the compression
				for len(z) < 70000 {
					z = append(append(z, z[rng.Intn(len(z)+1):]...), randLine(rng, s.delim, rng.Intn(300))...)
				}
				z = z[:70000]
			}
		default:
			z = randContent(rng, s.delim, s.lim, 1+rng.Intn(5), long)
		}
		if chance(rng, 0.4) {
			z = append(z, randLine(rng, s.delim, rng.Intn(20))[:1+0]...) // a line spans the end of the section
		}
		var rest B
		if i < nz-1 || chance(rng, 0.7) {
			rest = randContent(rng, s.delim, s.lim, 1+rng.Intn(3), long && chance(rng, 0.3))
		}
		if i == nz-1 && chance(rng, 0.3) {
			rest = append(rest, 'q', 'q')
		}
		zn := rdZone{ZL: len(z), D: append(append(B{}, z...), rest...)}
		zb := zsection(rng, z, rng.Intn(12)-2, chance(rng, 0.5))
		if i == nz-1 && chance(rng, 0.25) {
			zn.D = zn.D[:zn.ZL]
			rest = nil
			if chance(rng, 0.5) {
				zn.Bad = "sum"
				zb[len(zb)-1-rng.Intn(4)] ^= byte(1 + rng.Intn(255))
			} else {
				zn.Bad = "trunc"
				if chance(rng, 0.2) {
					zb[rng.Intn(2)] ^= 0xff
				} else {
					zb = zb[:rng.Intn(len(zb))]
				}
			}
		}
		s.zones = append(s.zones, zn)
		s.wire = append(append(s.wire, zb...), rest...)
	}
	if prof == "C04" && s.zones[nz].Bad == "" {
		if p := call(func() { s.wire = writerWire(rng, s.zones) }); p != "" {
			r.Emit(M{"id": itoa(id), "slack": readBuf, "zones": s.zones, "delim": int(s.delim), "lim": -1, "hooks": 0, "plain": false,
				"ev": []M{{"e": "writer", "err": "panic", "text": p}}})
			return
		}
	}
	tmps := nz == 0 && chance(rng, 0.4)
	s.chunks = randChunks(rng, len(s.wire), tmps)
	if prof == "C07" || chance(rng, 0.15) {
		s.hooks = rng.Intn(4)
		pd, pe := 0.15, 0.03
		s.verd = func(h int, line []byte) string {
			switch x := rng.Float64(); {
			case x < pd:
				return "drop"
			case x < pd+pe:
				return "err"
			}
			return "ok"
		}
		if nz > 0 {
			// dropped lines may run over the end of a zone
			s.zones, s.wire = s.zones[:1], plain
			s.chunks = randChunks(rng, len(s.wire), false)
		}
	}
	late := 0 // hooks added during the session
	if s.verd != nil && chance(rng, 0.4) {
		late = 1 + rng.Intn(2)
	}
	raw := chance(rng, 0.6)
	maxOps := 12 + rng.Intn(40)
	after := rng.Intn(3)
	s.ops = func(st *rdState) M {
		if st.n >= maxOps || st.eofs > after {
			return nil
		}
		if st.last == "other" && after == 0 {
			return nil
		}
		if chance(rng, 0.01) {
			return M{"e": "close"}
		}
		if late > 0 && !st.closed && chance(rng, 0.2) {
			late--
			return M{"e": "addhook"}
		}
		if chance(rng, 0.02) {
			return M{"e": "max", "n": pick(rng, -1, 0, 1, 10, 2048, 40000)}
		}
		rest := len(st.rest())
		if rest == 0 && !st.final() {
			return M{"e": "zon"}
		}
		if st.k > 0 && st.off < st.zones[st.k].ZL && chance(rng, 0.05) {
			return M{"e": "zon"} // refused: active already
		}
		line := st.final() || st.hasLine()
		if line && (!raw || chance(rng, 0.6)) {
			return M{"e": "line"}
		}
		n := 1 + rng.Intn(20)
		switch rng.Intn(4) {
		case 0:
			n = 1 + rng.Intn(5000)
		case 1:
			if rest > 0 {
				n = rest
			}
		}
		if rng.Intn(20) == 0 {
			n = 0
		}
		if st.zones[st.k].ZL > st.off && chance(rng, 0.2) {
			n = st.zones[st.k].ZL - st.off + rng.Intn(3) // about the end of the section
		}
		if !st.final() && n > rest {
			n = rest
		}
		if chance(rng, 0.4) {
			m := n
			if chance(rng, 0.6) {
				m = rng.Intn(n + 1)
			}
			if st.final() && chance(rng, 0.15) {
				return M{"e": "bin", "sz": 1 << 30, "m": m, "exp": pick(rng, 0, 29, 31, 32, 33, 40, 62, 63), "low": rng.Intn(6)}
			}
			return M{"e": "bin", "sz": n, "m": m}
		}
		return M{"e": "read", "n": n}
	}
	r.readerSession(itoa(id), s)
}

// readerSmall goes through every way to cut short streams into reads.
func (r *Run) readerSmall() {
	streams := []string{"a|b", "||a|", "ab|c|d", "a|bc|"}
	if r.Deep {
		streams = append(streams, "abc|d||ef", "|a||bcd|", "abcdefgh")
	}
	type variant struct {
		lim  int
		kind int
	}
	for si, str := range streams {
		for cut := 0; cut < 1<<(len(str)-1); cut++ {
			for v := 0; v < 4; v++ {
				s := &rdSession{delim: '|', lim: -1}
				s.zones = []rdZone{{D: B(str)}}
				s.wire = []byte(str)
				n := 0
				for i := 0; i < len(str); i++ {
					n++
					if i == len(str)-1 || cut>>i&1 == 1 {
						c := chunk{n: n}
						if i == len(str)-1 && v&1 == 1 {
							c.err = io.EOF
						} else if v == 2 {
							s.chunks = append(s.chunks, chunk{err: errTmp})
						} else if v == 3 {
							s.chunks = append(s.chunks, chunk{})
						}
						s.chunks = append(s.chunks, c)
						n = 0
					}
				}
				if v == 3 {
					s.lim = 3
				}
				s.ops = func(st *rdState) M {
					if st.eofs > 1 || st.n > 30 || st.last == "other" {
						return nil
					}
					if (v+st.n)%4 == 3 {
						return M{"e": "read", "n": 2}
					}
					return M{"e": "line"}
				}
				r.readerSession("s"+itoa(si)+"."+itoa(cut)+"."+itoa(v), s)
			}
		}
	}
}

// readerLimits walks over the interesting line lengths around the default limit.
func (r *Run) readerLimits() {
	type lc struct{ lim, n, set int }
	var cases []lc
	for i, n := range []int{defLimit - 1, defLimit, defLimit + 1, defLimit + readBuf, defLimit + readBuf + 1, defLimit + 2*readBuf, defLimit + 5000, 2*defLimit + 9} {
		lim := 0
		if i == 6 {
			lim = -1
		} else if i == 7 {
			lim = -2
		}
		cases = append(cases, lc{lim: lim, n: n})
	}
	// limits above the default, from the start or set in the middle
	for _, lim := range []int{defLimit + 1, 45000, 2*defLimit + 5} {
		for k, n := range []int{lim - 1, lim, lim + readBuf + 1} {
			if k%2 == 0 {
				cases = append(cases, lc{lim: lim, n: n})
			} else {
				cases = append(cases, lc{set: lim, n: n})
			}
		}
	}
	// the limit is lowered, and lifted, in the middle
	cases = append(cases, lc{lim: 60000, set: 3000, n: 3000}, lc{lim: 60000, set: 3000, n: 3000 + readBuf + 1}, lc{set: -1, n: defLimit + 5000})
	for i, c := range cases {
		n, lim := c.n, c.lim
		for ch := 0; ch < 3; ch++ {
			for z := 0; z < 2; z++ {
				rng := r.Rng(1000000 + i*10 + ch)
				line := append(bytes.Repeat([]byte{'x'}, n-1), '|')
				s := &rdSession{delim: '|', lim: lim}
				data := append(append(B("h|"), line...), "t|"...)
				if z == 0 {
					s.zones = []rdZone{{D: data}}
					s.wire = data
				} else {
					s.zones = []rdZone{{D: B("h|")}, {D: data, ZL: len(data)}}
					s.wire = append([]byte("h|"), zsection(rng, data, 6, false)...)
				}
				for left := len(s.wire); left > 0; {
					c := left
					if ch == 1 {
						c = 1000
					} else if ch == 2 {
						c = 2048
					}
					s.chunks = append(s.chunks, chunk{n: min(c, left)})
					left -= min(c, left)
				}
				s.ops = func(st *rdState) M {
					if st.eofs > 0 || st.last == "other" || st.n > 10 {
						return nil
					}
					if c.set != 0 && st.n == 1 {
						return M{"e": "max", "n": c.set}
					}
					if len(st.rest()) == 0 && !st.final() {
						return M{"e": "zon"}
					}
					return M{"e": "line"}
				}
				r.readerSession("l"+itoa(i)+"."+itoa(ch)+"."+itoa(z), s)
			}
		}
	}
	// an endless stream without delimiters
	for i, lim := range []int{0, 10, 2048, 5000} {
		s := &rdSession{delim: '|', lim: lim, zones: []rdZone{{D: bytes.Repeat([]byte{'e'}, 80000)}}}
		s.wire = s.zones[0].D
		s.chunks = randChunks(r.Rng(2000000+i), len(s.wire), false)
		s.ops = func(st *rdState) M {
			if st.n > 0 {
				return nil
			}
			return M{"e": "line"}
		}
		r.readerSession("e"+itoa(i), s)
	}
}

func itoa(n int) string { return string(dec(int64(n))) }

func suiteReader(r *Run) {
	if r.In != "" {
		r.readerScenarios()
		return
	}
	if r.Profile != "C07" && r.Profile != "C04" {
		r.readerSmall()
	}
	if r.Profile == "C02" || r.Deep {
		r.readerLimits()
	}
	r.each(r.readerRandom)
}

// readerScenarios replays behaviours of the model of the reader, one symbol being half a read buffer.
func (r *Run) readerScenarios() {
	scale := readBuf / 2
	if scale < 8 {
		scale = 8
	}
	for id, line := range readLines(r.In) {
		var sc struct {
			Zones []struct {
				D   []int  `json:"d"`
				ZL  int    `json:"zl"`
				Bad string `json:"bad"`
			} `json:"zones"`
			Lim    int `json:"lim"`
			Script []struct {
				N   int    `json:"n"`
				Err string `json:"err"`
			} `json:"script"`
			Ops []map[string]interface{} `json:"ops"`
		}
		must(json.Unmarshal(line, &sc))
		rng := r.Rng(id)
		s := &rdSession{delim: '|', lim: sc.Lim * scale}
		if sc.Lim == 0 {
			s.lim = -1
		}
		var toks []int // lengths of the wire symbols in bytes
		for zi, z := range sc.Zones {
			var d B
			for _, v := range z.D {
				b := randLine(rng, '|', scale-1)
				if v != 0 {
					b[scale-1] = 'v'
				}
				d = append(d, b...)
			}
			zn := rdZone{D: d, ZL: z.ZL * scale, Bad: z.Bad}
			if zi > 0 {
				zb := zsection(rng, d[:zn.ZL], 6, false)
				body := len(zb) - 6
				if z.Bad == "sum" {
					zb[len(zb)-1] ^= 1
				} else if z.Bad == "trunc" {
					zb = zb[:2+rng.Intn(body)]
					body = len(zb) - 2
				}
				s.wire = append(s.wire, zb...)
				toks = append(toks, 2)
				for i := 0; i < z.ZL; i++ {
					toks = append(toks, body/z.ZL)
				}
				if z.Bad != "trunc" {
					last := 4
					if z.ZL > 0 {
						last += body % z.ZL
					} else {
						last += body
					}
					toks = append(toks, last)
				}
			}
			s.wire = append(s.wire, d[zn.ZL:]...)
			for i := z.ZL; i < len(z.D); i++ {
				toks = append(toks, scale)
			}
			s.zones = append(s.zones, zn)
		}
		for _, c := range sc.Script {
			ch := chunk{}
			for i := 0; i < c.N && len(toks) > 0; i++ {
				ch.n += toks[0]
				toks = toks[1:]
			}
			switch c.Err {
			case "eof":
				ch.err = io.EOF
			case "tmp":
				ch.err = errTmp
			}
			s.chunks = append(s.chunks, ch)
		}
		next := 0
		s.ops = func(st *rdState) M {
			if next >= len(sc.Ops) || st.last == "other" {
				return nil
			}
			op := M{}
			for k, v := range sc.Ops[next] {
				if f, ok := v.(float64); ok {
					op[k] = int(f) * scale
				} else {
					op[k] = v
				}
			}
			next++
			// the real reader may return less than the model did; keep to the protocol
			rest := len(st.rest())
			switch op["e"] {
			case "line":
				if !st.final() && !st.hasLine() {
					return nil
				}
			case "read", "bin":
				n := "n"
				if op["e"] == "bin" {
					n = "sz"
				}
				if !st.final() && op[n].(int) > rest {
					op[n] = rest
				}
			case "zon":
				if active := st.k > 0 && st.off < st.zones[st.k].ZL; !active && st.final() {
					return nil
				} else if rest > 0 && !active {
					next--
					return M{"e": "bin", "sz": rest, "m": 0}
				}
			}
			return op
		}
		r.readerSession("m"+itoa(id), s)
	}
}
