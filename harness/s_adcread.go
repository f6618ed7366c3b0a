package main

import (
	"bytes"
	"encoding/json"
	"math/rand"

	"github.com/direct-connect/go-dc/adc"
)

func init() { suites["adcread"] = suiteAdcRead }

type arSession struct {
	in, wire []byte
	zones    map[int]bool // where compression has to be switched on
	chunks   []chunk
	hooks    int
	ka       bool
	pErr     float64
	reconf   float64
	pDrop    float64
	typed    float64
	raw      float64
	script   *arScript
}

// arScript is a session of the model.
type arScript struct {
	In B `json:"in"`
	H  struct {
		Hooks int  `json:"hooks"`
		KA    bool `json:"ka"`
	} `json:"H"`
	Log []struct {
		K   string `json:"k"`
		Op  string `json:"op"`
		Ret string `json:"ret"`
	} `json:"log"`
}

func (s *arScript) next(k string) string {
	for i := range s.Log {
		if s.Log[i].K == k {
			ret := s.Log[i].Ret
			s.Log = append(s.Log[:i:i], s.Log[i+1:]...)
			return ret
		}
		if s.Log[i].K == "call" {
			break
		}
	}
	return "ok"
}

func (r *Run) adcReadSession(id interface{}, rng *rand.Rand, s *arSession) {
	head := M{"id": id, "in": cp(s.in), "H": M{"hooks": s.hooks, "ka": s.ka}}
	r.Session(head, func(e *Events) {
		rd := adc.NewReader(&scriptReader{data: s.wire, chunks: s.chunks})
		rd.SetMaxLine(-1)
		used := 0
		rd.OnLine(func(line []byte) (bool, error) { used += len(line); return true, nil })
		decide := func(k string, drop bool) string {
			if s.script != nil {
				return s.script.next(k)
			}
			if chance(rng, s.pErr) {
				return "err"
			}
			if drop && chance(rng, s.pDrop) {
				return "drop"
			}
			return "ok"
		}
		addHook := func(i int) {
			rd.OnLine(func(line []byte) (bool, error) {
				yield()
				ret := decide("line", true)
				e.End(M{"k": "line", "i": i, "line": cp(line), "ret": ret})
				r.Count("hook_"+ret, 1)
				switch ret {
				case "err":
					return chance(rng, 0.5), errHook
				case "drop":
					return false, nil
				}
				return true, nil
			})
		}
		hooks, ka := 0, s.ka
		for hooks < s.hooks {
			hooks++
			addHook(hooks)
		}
		setKA := func() {
			rd.OnKeepAlive = func() error {
				yield()
				ret := decide("ka", false)
				e.End(M{"k": "ka", "ret": ret})
				r.Count("ka_"+ret, 1)
				if ret == "err" {
					return errHook
				}
				return nil
			}
		}
		if s.ka {
			setKA()
		}
		type kept struct {
			p   adc.Packet
			m   adc.Message
			raw bool
		}
		var all []kept
		dump := func(k kept, now bool) M {
			d := M{"pk": []int{}, "t": "", "f": []int{}}
			if k.p != nil {
				pk, same := adcAddr(k.p)
				if !same {
					panic("the packet contradicts itself")
				}
				d["pk"] = pk
			}
			m := k.m
			if k.p != nil {
				m = k.p.Message()
			}
			md := adcMsgDump(m)
			d["t"], d["f"] = md["t"], md["f"]
			if k.raw && !now {
				d["f"] = []int{}
			}
			return d
		}
		eofs := 0
		for n := 0; n < 300 && eofs < 2; n++ {
			if s.zones[used] && used != 0 {
				want(rd.EnableZlib())
				delete(s.zones, used)
			}
			if s.script == nil && chance(rng, s.reconf) {
				if chance(rng, 0.5) {
					hooks++
					addHook(hooks)
				} else if ka = !ka; ka {
					setKA()
				} else {
					rd.OnKeepAlive = nil
				}
				e.End(M{"k": "conf", "H": M{"hooks": hooks, "ka": ka}})
			}
			op := "packet"
			if s.script != nil {
				for len(s.script.Log) > 0 && s.script.Log[0].K != "call" {
					s.script.Log = s.script.Log[1:]
				}
				if len(s.script.Log) == 0 {
					break
				}
				op = s.script.Log[0].Op
				s.script.Log = s.script.Log[1:]
			} else if chance(rng, s.raw) {
				op = "raw"
			} else if chance(rng, s.typed) {
				op = "info"
				if rest := bytes.TrimLeft(s.in[min(used, len(s.in)):], "\n"); len(rest) > 0 && rest[0] == 'C' {
					op = "client"
				}
				if chance(rng, 0.1) {
					op = []string{"info", "client"}[rng.Intn(2)]
				}
			}
			e.End(M{"k": "call", "op": op})
			ret := M{"k": "ret", "err": "", "pk": []int{}, "msg": M{"t": "", "f": []int{}, "st": "none"}}
			ok := e.Do(ret, func(ret M) {
				var k kept
				var err error
				switch op {
				case "packet":
					k.p, err = rd.ReadPacket()
				case "raw":
					k.p, err = rd.ReadPacketRaw()
					k.raw = true
				case "info":
					k.m, err = rd.ReadInfo()
				case "client":
					k.m, err = rd.ReadClient()
				}
				ret["err"] = errClass(err)
				r.Count("ret_"+op+"_"+errClass(err), 1)
				if err != nil {
					if errClass(err) == "eof" {
						eofs++
					}
					return
				}
				d := dump(k, true)
				ret["msg"] = M{"st": "ok", "t": d["t"], "f": d["f"]}
				ret["pk"] = d["pk"]
				if k.p == nil {
					kind := map[string]byte{"info": 'I', "client": 'C'}[op]
					cmd := k.m.Cmd()
					ret["pk"] = (&apk{Kind: kind, Cmd: cp(cmd[:])}).m()
				}
				all = append(all, k)
			})
			if !ok {
				return
			}
		}
		ms := make([]M, len(all))
		for i, k := range all {
			ms[i] = dump(k, false)
			delete(ms[i], "pk")
			if k.p != nil {
				pk, _ := adcAddr(k.p)
				ms[i]["pk"] = []interface{}{pk}
			} else {
				ms[i]["pk"] = []interface{}{}
			}
		}
		e.End(M{"k": "recheck", "ms": ms})
	})
}

// adcLineRand makes one line of a stream, with the delimiter.
func (g *gen) adcLine() []byte {
	rng := g.Rand
	switch x := rng.Float64(); {
	case x < 0.1:
		return []byte("\n")
	case x < 0.15:
		return append(randBytes(rng, 1+rng.Intn(3), "\r \t\x00I"), '\n')
	case x < 0.22:
		l := []byte(adcLines[rng.Intn(len(adcLines))])
		if len(l) == 0 || l[len(l)-1] != '\n' {
			l = append(l, '\n')
		}
		return l
	}
	for {
		a := g.apk()
		_, m := g.anyMsg()
		cmd := m.Cmd()
		a.Cmd = cp(cmd[:])
		var line []byte
		if p := call(func() {
			buf := bytes.NewBuffer(nil)
			want(adcMakePacket(a, m).MarshalPacketADC(buf))
			line = buf.Bytes()
		}); p != "" {
			continue
		}
		if chance(rng, 0.15) {
			line = append(bytes.Replace(g.lineMutate(line), []byte("\n"), nil, -1), '\n')
		}
		return line
	}
}

func (r *Run) adcReadRandom(id int) {
	rng := r.Rng(id)
	s := &arSession{zones: map[int]bool{}}
	if chance(rng, 0.5) {
		s.hooks = rng.Intn(3)
		s.pDrop = []float64{0, 0.1, 0.4}[rng.Intn(3)]
		s.pErr = []float64{0, 0.02, 0.2}[rng.Intn(3)]
	}
	s.ka = chance(rng, 0.6)
	s.typed = []float64{0, 0, 0.3, 1}[rng.Intn(4)]
	s.raw = []float64{0, 0, 0.3, 1}[rng.Intn(4)]
	g := &gen{Rand: rng, wild: chance(rng, 0.2)}
	n := 1 + rng.Intn(12)
	if r.Deep {
		n = 1 + rng.Intn(40)
	}
	if s.typed == 1 && chance(rng, 0.7) {
		s.raw = 0
	}
	if chance(rng, 0.3) {
		s.reconf = 0.2
	}
	z := chance(rng, 0.25)
	if z {
		s.pDrop, s.pErr, s.reconf = 0, 0, 0
	}
	var zone []byte
	zon := false
	end := func() {
		if zon {
			s.wire = append(s.wire, zsection(rng, zone, pick(rng, 0, 1, 9, -1), true)...)
		} else {
			s.wire = append(s.wire, zone...)
		}
		zone, zon = nil, false
	}
	kind := byte(0)
	if s.typed == 1 {
		kind = "IC"[rng.Intn(2)]
	}
	for i := 0; i < n; i++ {
		f := g.adcLine()
		if kind != 0 && len(f) > 5 && chance(rng, 0.8) {
			f[0] = kind
		}
		s.in = append(s.in, f...)
		zone = append(zone, f...)
		if z {
			if zon && chance(rng, 0.3) {
				end()
			} else if !zon && chance(rng, 0.3) {
				s.in = append(s.in, "IZON\n"...)
				zone = append(zone, "IZON\n"...)
				end()
				s.zones[len(s.in)] = true
				zon = true
			}
		}
	}
	if !z && chance(rng, 0.3) {
		tail := randBytes(rng, 1+rng.Intn(20), "IBMSG A1")
		s.in = append(s.in, tail...)
		zone = append(zone, tail...)
	}
	end()
	s.chunks = randChunks(rng, len(s.wire), false)
	r.adcReadSession(id, rng, s)
}

func suiteAdcRead(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			sc := &arScript{}
			must(json.Unmarshal(l, sc))
			rng := r.Rng(i)
			r.adcReadSession([]interface{}{"model", i}, rng, &arSession{in: sc.In, wire: sc.In, script: sc,
				hooks: sc.H.Hooks, ka: sc.H.KA, chunks: randChunks(rng, len(sc.In), false)})
		}
		return
	}
	r.each(r.adcReadRandom)
}
