package main

import (
	"bytes"
	"compress/zlib"
	"encoding/json"
	"io"
	"math/rand"

	"github.com/direct-connect/go-dc/lineproto"
)

func init() { suites["writer"] = suiteWriter }

// decodeWire decodes what was written, given the offsets at which compression was on.
func decodeWire(wire []byte, starts []int) (data []byte, corrupt bool) {
	pos := 0
	for i, st := range starts {
		if st < pos {
			return data, true
		}
		data = append(data, wire[pos:st]...)
		br := bytes.NewReader(wire[st:])
		last := i == len(starts)-1
		zr, err := zlib.NewReader(br)
		if err != nil {
			return data, !((err == io.EOF || err == io.ErrUnexpectedEOF) && last)
		}
		out, err := io.ReadAll(zr)
		data = append(data, out...)
		if err != nil {
			return data, !(err == io.ErrUnexpectedEOF && last)
		}
		pos = len(wire) - br.Len()
	}
	return append(data, wire[pos:]...), false
}

// wfault decides the fate of the n-th transport write of operation op.
type wrSession struct {
	buf     int
	timed   bool
	hooks   int
	ops     []M
	onWrite func(op, nth, total, n int) (m int, fail bool)
	onArm   func(op, nth int) bool // refuse
	verd    func(op, h int) string
}

type wrTransport struct {
	s     *wrSession
	wire  []byte
	op    int
	w, a  int
	log   []M
	total int
}

func (t *wrTransport) Write(p []byte) (int, error) {
	yield()
	defer yield()
	m, fail := len(p), false
	if t.s.onWrite != nil {
		m, fail = t.s.onWrite(t.op, t.w, len(t.wire), len(p))
	}
	t.w++
	if !fail {
		m = len(p)
	}
	if m > len(p) {
		m = len(p)
	}
	t.wire = append(t.wire, p[:m]...)
	t.log = append(t.log, M{"k": "w", "n": len(p), "ok": !fail, "m": m})
	if fail {
		return m, errUser
	}
	return m, nil
}

func (t *wrTransport) timeout(on bool) error {
	if !on {
		t.log = append(t.log, M{"k": "dis"})
		return nil
	}
	n := t.a
	t.a++
	if t.s.onArm != nil && t.s.onArm(t.op, n) {
		t.log = append(t.log, M{"k": "arm", "ok": false})
		return errUser
	}
	t.log = append(t.log, M{"k": "arm", "ok": true})
	return nil
}

func (r *Run) writerSession(id string, s *wrSession) {
	head := M{"id": id, "timed": s.timed, "hooks": s.hooks}
	r.Session(head, func(e *Events) {
		t := &wrTransport{s: s}
		w := lineproto.NewWriterSize(t, s.buf)
		if s.buf == 0 && len(id)%2 == 0 {
			w = lineproto.NewWriter(t)
		}
		if s.timed {
			w.Timeout = t.timeout
		}
		addHook := func(h int) {
			w.OnLine(func(line []byte) (bool, error) {
				yield()
				v := s.verd(t.op, h)
				t.log = append(t.log, M{"k": "hook", "h": h, "d": cp(line), "r": v})
				switch v {
				case "drop":
					return false, nil
				case "err":
					return true, errHook
				}
				return true, nil
			})
		}
		hooks := s.hooks
		for h := 1; h <= hooks; h++ {
			addHook(h)
		}
		var starts []int
		seen := 0
		for i, op := range s.ops {
			t.op, t.w, t.a = i, 0, 0
			t.log = []M{}
			switch op["e"] {
			case "addhook":
				hooks++
				addHook(hooks)
				e.End(M{"e": "addhook"})
				continue
			case "settimeout":
				if w.Timeout = nil; op["on"].(bool) {
					w.Timeout = t.timeout
				}
				e.End(M{"e": "settimeout", "on": op["on"]})
				continue
			}
			m := M{}
			for k, v := range op {
				m[k] = v
			}
			alive := e.Do(m, func(m M) {
				var err error
				// the caller may reuse its buffer
				buf := append([]byte{}, m["d"].(B)...)
				switch m["e"] {
				case "line":
					err = w.WriteLine(buf)
				case "write":
					var n int
					n, err = w.Write(buf)
					if err == nil && n != len(buf) {
						err = io.ErrShortWrite
					}
				case "flush":
					err = w.Flush()
				case "enable":
					lvl := m["lvl"].(int)
					if lvl == zlib.DefaultCompression && i%2 == 0 {
						err = w.EnableZlib()
					} else {
						err = w.EnableZlibLevel(lvl)
					}
					if err == nil {
						starts = append(starts, len(t.wire))
					}
				case "disable":
					err = w.DisableZlib()
				case "close":
					err = w.Close()
				}
				for j := range buf {
					buf[j] = '#'
				}
				m["err"] = errClass(err)
				m["stuck"] = w.Err() != nil
				dec, bad := decodeWire(t.wire, starts)
				m["corrupt"] = bad
				m["delta"] = cp(dec[min(seen, len(dec)):])
				if len(dec) < seen {
					m["corrupt"] = true
				}
				seen = len(dec)
				m["log"] = t.log
			})
			if !alive {
				return
			}
		}
	})
	r.Count("ops", len(head["ev"].([]M)))
}

func (r *Run) writerRandom(id int) {
	rng := r.Rng(id)
	prof := r.Profile
	if prof == "C13" {
		prof = []string{"C04", "C05", "C06"}[rng.Intn(3)]
	}
	s := &wrSession{buf: pick(rng, 0, 0, 0, 1, 7, 64, 1000)}
	s.timed = prof == "C06" || chance(rng, 0.4)
	big := chance(rng, 0.15)
	if prof == "C07" || chance(rng, 0.15) {
		s.hooks = rng.Intn(4)
	}
	randData := func() B {
		var n int
		switch rng.Intn(10) {
		case 0:
			n = 0
		case 1, 2:
			n = s.buf - 1 + rng.Intn(3)
			if s.buf == 0 {
				n = pick(rng, 1, 4095, 4096, 4097)
				if !big {
					n = pick(rng, 1, 2, 3)
				}
			}
		case 3:
			n = rng.Intn(500)
			if big {
				n = rng.Intn(20000)
			}
		default:
			n = 1 + rng.Intn(30)
		}
		if n < 0 {
			n = 0
		}
		if chance(rng, 0.5) {
			return randBytes(rng, n, "")
		}
		return randBytes(rng, n, "ab|")
	}
	n := 3 + rng.Intn(14)
	zon := false
	for i := 0; i < n; i++ {
		var op M
		x := rng.Intn(20)
		switch {
		case x < 8:
			op = M{"e": "line", "d": randData()}
		case x < 11:
			op = M{"e": "write", "d": randData()}
		case x < 13:
			op = M{"e": "flush"}
		case x < 16:
			if zon && chance(rng, 0.85) {
				op = M{"e": "disable"}
				zon = false
			} else {
				op = M{"e": "enable", "lvl": rng.Intn(12) - 2}
				if chance(rng, 0.3) {
					op["lvl"] = -1
				}
				if chance(rng, 0.06) {
					op["lvl"] = pick(rng, -3, 10, 100)
				} else {
					zon = true
				}
			}
		case x < 17:
			op = M{"e": "disable"}
			zon = false
		case x < 18:
			op = M{"e": "line", "d": randData()}
			if chance(rng, 0.4) || i == n-1 {
				op = M{"e": "close"}
			}
		default:
			op = M{"e": "flush"}
		}
		if op["d"] == nil {
			op["d"] = B{}
		}
		s.ops = append(s.ops, op)
	}
	switch rng.Intn(4) {
	case 0:
		s.ops = append(s.ops, M{"e": "close", "d": B{}})
	case 1:
		s.ops = append(s.ops, M{"e": "flush", "d": B{}}, M{"e": "close", "d": B{}})
	}
	if chance(rng, 0.2) {
		for i := 0; i < 3; i++ {
			s.ops = append(s.ops, M{"e": []string{"line", "write", "flush", "enable", "disable", "close"}[rng.Intn(6)], "d": B("late|"), "lvl": 6})
		}
	}
	// hooks and the time-out call-back may come and go during the session
	insert := func(op M) {
		j := rng.Intn(len(s.ops) + 1)
		s.ops = append(s.ops[:j:j], append([]M{op}, s.ops[j:]...)...)
	}
	late := 0
	if chance(rng, 0.15) || prof == "C07" && chance(rng, 0.4) {
		for late = 1 + rng.Intn(2); late > 0; late-- {
			insert(M{"e": "addhook"})
		}
		late = 2
	}
	if chance(rng, 0.12) {
		insert(M{"e": "settimeout", "on": !s.timed})
		if chance(rng, 0.3) {
			insert(M{"e": "settimeout", "on": chance(rng, 0.5)})
		}
	}
	pf := 0.3
	if prof == "C05" || prof == "C06" {
		pf = 0.75
	}
	if chance(rng, pf) {
		kind := rng.Intn(4)
		if kind == 2 && !s.timed || kind == 3 && s.hooks == 0 {
			kind = rng.Intn(2)
		}
		again := chance(rng, 0.25) // keeps failing
		hit := false
		switch kind {
		case 0: // at a byte offset
			at := rng.Intn(200)
			if chance(rng, 0.3) {
				at = rng.Intn(12000)
			}
			s.onWrite = func(op, nth, total, n int) (int, bool) {
				if hit {
					return 0, again
				}
				if total+n < at {
					return n, false
				}
				hit = true
				return max(at-total, 0), true
			}
		case 1: // at some write of some operation
			fop, fn, part := rng.Intn(len(s.ops)), rng.Intn(2), rng.Float64()
			full := chance(rng, 0.15)
			s.onWrite = func(op, nth, total, n int) (int, bool) {
				if hit {
					return 0, again
				}
				if op < fop || op == fop && nth < fn {
					return n, false
				}
				hit = true
				if full {
					return n, true
				}
				return int(part * float64(n)), true
			}
		case 2:
			fop, fn := rng.Intn(len(s.ops)), rng.Intn(2)
			s.onArm = func(op, nth int) bool {
				if hit {
					return again
				}
				hit = op > fop || op == fop && nth >= fn
				return hit
			}
		case 3:
			s.verd = nil
		}
		if kind == 3 {
			fop := rng.Intn(len(s.ops))
			fh := 1 + rng.Intn(s.hooks)
			s.verd = func(op, h int) string {
				if !hit && op >= fop && h == fh {
					hit = true
					return "err"
				}
				return "ok"
			}
		}
	}
	if s.verd == nil && s.hooks+late > 0 {
		pd := rng.Float64() * 0.3
		s.verd = func(op, h int) string {
			if chance(rng, pd) {
				return "drop"
			}
			return "ok"
		}
	}
	r.writerSession(itoa(id), s)
}

// writerFaults fails a fixed session at every byte and at every write.
func (r *Run) writerFaults() {
	rng := rand.New(rand.NewSource(r.Seed))
	b := func(n int) B { return randBytes(rng, n, "") }
	ops := []M{
		{"e": "line", "d": B("hello|")}, {"e": "line", "d": b(20)}, {"e": "flush", "d": B{}},
		{"e": "line", "d": b(10)}, {"e": "enable", "d": B{}, "lvl": 6}, {"e": "line", "d": b(40)},
		{"e": "flush", "d": B{}}, {"e": "write", "d": b(15)}, {"e": "line", "d": b(5)}, {"e": "disable", "d": B{}},
		{"e": "write", "d": b(12)}, {"e": "line", "d": b(9)}, {"e": "enable", "d": B{}, "lvl": 1},
		{"e": "line", "d": b(9)}, {"e": "close", "d": B{}},
	}
	step := 3
	if r.Deep {
		step = 1
	}
	for _, size := range []int{0, 16} {
		for at := 0; at < 260; at += step {
			hit := false
			s := &wrSession{buf: size, timed: at%2 == 0, ops: ops}
			s.onWrite = func(op, nth, total, n int) (int, bool) {
				if hit || total+n < at {
					return n, false
				}
				hit = true
				return max(at-total, 0), true
			}
			r.writerSession("f"+itoa(size)+"."+itoa(at), s)
		}
		for at := range ops {
			for nth := 0; nth < 2; nth++ {
				hit := false
				s := &wrSession{buf: size, timed: true, ops: ops}
				s.onArm = func(op, n int) bool {
					if hit || op < at || op == at && n < nth {
						return false
					}
					hit = true
					return true
				}
				r.writerSession("a"+itoa(size)+"."+itoa(at)+"."+itoa(nth), s)
			}
		}
	}
}

// writerScenarios replays behaviours of the model of the writer, one symbol being 2048 bytes.
func (r *Run) writerScenarios() {
	for id, line := range readLines(r.In) {
		var sc struct {
			Timed bool `json:"timed"`
			Hooks int  `json:"hooks"`
			Ops   []struct {
				E   string `json:"e"`
				N   int    `json:"n"`
				Log []struct {
					K  string `json:"k"`
					OK bool   `json:"ok"`
					M  int    `json:"m"`
					N  int    `json:"n"`
					R  string `json:"r"`
				} `json:"log"`
			} `json:"ops"`
		}
		must(json.Unmarshal(line, &sc))
		rng := r.Rng(id)
		scale := 2048
		s := &wrSession{timed: sc.Timed, hooks: sc.Hooks, buf: 4096}
		if id%4 != 0 {
			scale, s.buf = 32, 64
		}
		for _, op := range sc.Ops {
			s.ops = append(s.ops, M{"e": op.E, "d": randBytes(rng, op.N*scale, ""), "lvl": rng.Intn(12) - 2})
		}
		nth := func(op int, kind string, n int) (ok bool, m int, r string, found bool) {
			for _, l := range sc.Ops[op].Log {
				if l.K != kind {
					continue
				}
				if n == 0 {
					if l.N > 0 {
						m = l.M * 1000 / l.N
					}
					return l.OK, m, l.R, true
				}
				n--
			}
			return true, 0, "ok", false
		}
		s.onWrite = func(op, n, total, size int) (int, bool) {
			ok, m, _, _ := nth(op, "w", n)
			return size * m / 1000, !ok
		}
		s.onArm = func(op, n int) bool {
			ok, _, _, _ := nth(op, "arm", n)
			return !ok
		}
		s.verd = func(op, h int) string {
			_, _, v, found := nth(op, "hook", h-1)
			if !found {
				return "ok"
			}
			return v
		}
		r.writerSession("m"+itoa(id), s)
	}
}

func suiteWriter(r *Run) {
	if r.In != "" {
		r.writerScenarios()
		return
	}
	if r.Profile == "C05" || r.Profile == "C06" {
		r.writerFaults()
	}
	r.each(r.writerRandom)
}
