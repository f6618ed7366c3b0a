package main

import (
	"bytes"
	"io"
	"reflect"

	"github.com/direct-connect/go-dc/adc"
)

func init() { suites["adcwrite"] = suiteAdcWrite }

// adcFail is a message that cannot be encoded.
type adcFail struct{ N int }

func (adcFail) Cmd() adc.MsgType { return adc.MsgType{'F', 'A', 'L'} }
func (m adcFail) MarshalADC(buf *bytes.Buffer) error {
	buf.WriteString("partial"[:m.N])
	return errUser
}

// adcSmall keeps messages whose encoding is not determined out of sessions.
func adcSmall(m adc.Message) bool {
	switch m := m.(type) {
	case *adc.Supported:
		return len(m.Features) <= 1
	case *adc.UserCommand:
		return len(m.Path) != 0
	}
	return true
}

// adcSend writes a packet in one of the ways there are.
func (g *gen) adcSend(w *adc.Writer, pool *adcPool, a *apk, m adc.Message) error {
	var src, dst adc.SID
	copy(src[:], a.Src)
	copy(dst[:], a.Dst)
	sel := func() []adc.FeatureSel {
		return adcMakePacket(a, m).(*adc.FeaturePacket).Sel
	}
	how := g.Intn(3)
	if a.Kind == 'U' || how == 0 {
		return w.WritePacket(adcMakePacket(a, m))
	}
	if how == 1 {
		switch a.Kind {
		case 'I':
			return w.WriteInfo(m)
		case 'H':
			return w.WriteHub(m)
		case 'C':
			return w.WriteClient(m)
		case 'B':
			return w.WriteBroadcast(src, m)
		case 'D':
			return w.WriteDirect(src, dst, m)
		case 'E':
			return w.WriteEcho(src, dst, m)
		case 'F':
			return w.WriteFeature(src, sel(), m)
		}
	}
	s := pool.find(a)
	if s != nil {
		return s.WriteMessage(m)
	}
	switch a.Kind {
	case 'I':
		s = w.InfoStream()
	case 'H':
		s = w.HubStream()
	case 'C':
		s = w.ClientStream()
	case 'B':
		s = w.BroadcastStream(src)
	case 'D':
		s = w.DirectStream(src, dst)
	case 'E':
		s = w.EchoStream(src, dst)
	case 'F':
		s = w.FeatureStream(src, sel())
	}
	pool.add(a, s)
	return s.WriteMessage(m)
}

// adcPool keeps streams for use in turns.
type adcPool struct {
	addr []apk
	s    []adc.WriteStream
}

func (p *adcPool) add(a *apk, s adc.WriteStream) {
	p.addr, p.s = append(p.addr, *a), append(p.s, s)
}

func (p *adcPool) find(a *apk) adc.WriteStream {
	for i := range p.addr {
		b := p.addr[i]
		b.Cmd = a.Cmd
		if reflect.DeepEqual(b, *a) {
			return p.s[i]
		}
	}
	return nil
}

func (r *Run) adcWriteRandom(id int) {
	rng := r.Rng(id)
	hooks := 0
	if chance(rng, 0.4) {
		hooks = rng.Intn(3)
	}
	pDrop := []float64{0, 0.1, 0.4}[rng.Intn(3)]
	pErr := []float64{0, 0, 0.02}[rng.Intn(3)]
	limit := -1
	if chance(rng, 0.12) {
		limit = rng.Intn(400)
	}
	bufSize := pick(rng, 0, 0, 16, 64, 4096)
	zon := chance(rng, 0.3)
	r.Session(M{"id": id, "hooks": hooks}, func(e *Events) {
		t := &nwTransport{limit: limit}
		w := adc.NewWriterSize(t, bufSize)
		if bufSize == 0 && chance(rng, 0.5) {
			w = adc.NewWriter(t)
		}
		addHook := func(i int) {
			w.OnLine(func(line []byte) (bool, error) {
				yield()
				ret := "ok"
				if chance(rng, pErr) {
					ret = "err"
				} else if chance(rng, pDrop) {
					ret = "drop"
				}
				e.End(M{"k": "hook", "i": i, "line": cp(line), "ret": ret})
				r.Count("hook_"+ret, 1)
				switch ret {
				case "err":
					return chance(rng, 0.5), errHook
				case "drop":
					return false, nil
				}
				return true, nil
			})
		}
		last := hooks
		for i := 1; i <= hooks; i++ {
			addHook(i)
		}
		g := &gen{Rand: rng}
		pool := &adcPool{}
		var starts, zones []int // where compression begins: on the wire, in the content
		seen, active, dead, ended := 0, false, false, -1
		finish := func(m M, err error) {
			m["err"] = nwErr(err)
			dec, bad := decodeWire(t.wire, starts)
			if bad || len(dec) < seen {
				panic("what was written cannot be decoded")
			}
			m["wire"] = cp(dec[seen:])
			seen = len(dec)
			m["tf"] = t.failed
		}
		ev := func(k string, fnc func() error) bool {
			m := M{"k": k, "err": "", "wire": B{}, "tf": false, "same": true}
			return e.Do(m, func(m M) {
				err := fnc()
				finish(m, err)
				dead = dead || err != nil
			})
		}
		n := 2 + rng.Intn(12)
		for i := 0; i < n; i++ {
			switch x := rng.Float64(); {
			case x < 0.07:
				e.End(M{"k": "ka"})
				if !ev("ret", w.WriteKeepAlive) {
					return
				}
			case x < 0.22:
				fl := w.Flush
				if chance(rng, 0.5) {
					var id adc.SID
					fl = []adc.WriteStream{w.HubStream(), w.InfoStream(), w.ClientStream(), w.BroadcastStream(id), w.DirectStream(id, id),
						w.EchoStream(id, id), w.FeatureStream(id, nil)}[rng.Intn(7)].Flush
				}
				if !ev("flush", fl) {
					return
				}
			case x < 0.24 && last < 3:
				last++
				addHook(last)
				e.End(M{"k": "addhook"})
			case x < 0.36 && zon && !active:
				if !ev("flush", w.Flush) {
					return
				}
				if seen == ended {
					continue // two sections do not follow each other directly
				}
				lvl := pick(rng, -3, -2, -1, 0, 1, 5, 9, 10)
				m := M{"k": "zon", "lvl": lvl, "err": "", "wire": B{}, "tf": false}
				if !e.Do(m, func(m M) {
					var err error
					if lvl == -1 {
						err = w.EnableZlib()
					} else {
						err = w.EnableZlibLevel(lvl)
					}
					if err == nil {
						active = true
						starts = append(starts, len(t.wire))
					}
					finish(m, err)
					if err == nil {
						zones = append(zones, seen)
					}
					dead = dead || err != nil && t.failed
				}) {
					return
				}
			case x < 0.34 && active:
				active = false
				if !ev("zoff", w.DisableZlib) {
					return
				}
				ended = seen
			default:
				a := g.apk()
				if len(pool.s) != 0 && chance(rng, 0.3) {
					b := pool.addr[rng.Intn(len(pool.s))]
					a = &b
				}
				tn, m := g.anyMsg()
				for !adcSmall(m) {
					tn, m = g.anyMsg()
				}
				if chance(rng, 0.04) {
					tn, m = "Fail", &adcFail{N: rng.Intn(8)}
				}
				cmd := m.Cmd()
				a.Cmd = cp(cmd[:])
				orig := m
				if v := reflect.ValueOf(m).Elem(); chance(rng, 0.5) && tn != "Raw" {
					m = v.Interface().(adc.Message)
				}
				before := adcMsgDump(m)
				e.End(M{"k": "call", "m": M{"pk": a.m(), "t": tn, "f": before["f"]}})
				rec := M{"k": "ret", "err": "", "wire": B{}, "tf": false, "same": true}
				if !e.Do(rec, func(rec M) {
					err := g.adcSend(w, pool, a, m)
					rec["same"] = reflect.DeepEqual(adcMsgDump(m), before)
					scramble(reflect.ValueOf(orig))
					finish(rec, err)
					dead = dead || err != nil && tn != "Fail"
					r.Count("write_"+nwErr(err), 1)
				}) {
					return
				}
			}
		}
		if active && !ev("zoff", w.DisableZlib) || !ev("flush", w.Flush) || dead {
			return
		}
		// what the other side makes of it
		rec := M{"k": "peer", "got": []M{}}
		e.Do(rec, func(rec M) {
			got := []M{}
			rd := adc.NewReader(&scriptReader{data: t.wire, chunks: randChunks(rng, len(t.wire), false)})
			rd.SetMaxLine(-1)
			used := 0
			check := func() {
				if len(zones) > 0 && zones[0] == used {
					zones = zones[1:]
					want(rd.EnableZlib())
				}
			}
			rd.OnLine(func(line []byte) (bool, error) {
				yield()
				used += len(line)
				return true, nil
			})
			rd.OnKeepAlive = func() error { check(); return nil }
			for {
				check()
				p, err := rd.ReadPacket()
				if err == io.EOF {
					break
				}
				d := M{"err": errClass(err), "pk": []int{}, "msg": M{"t": "", "f": []int{}, "st": "none"}}
				if err == nil {
					d["msg"] = adcMsgDump(p.Message())
					d["pk"], _ = adcAddr(p)
				}
				got = append(got, d)
				if len(got) > 1000 {
					panic("too much")
				}
			}
			rec["got"] = got
			r.Count("peer", len(got))
		})
	})
}

func suiteAdcWrite(r *Run) {
	r.each(r.adcWriteRandom)
}
