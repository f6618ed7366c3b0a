package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"

	"github.com/direct-connect/go-dc/nmdc"
)

// Sessions of all kinds that interleave or run at once. Each is recorded as if it were alone and
// has to conform to its own specification.

func init() { suites["sessions"] = suiteSessions }

// sched lets one session run at a time and switches between them where they call the harness:
// in transports, hooks, and between operations.
type sched struct {
	wake []chan struct{}
	live []bool
	cur  int
	plan []int // who runs after each switch; random when it ends
	rng  *rand.Rand
	n    int
}

var running atomic.Pointer[sched]

// yield lets another session run.
func yield() {
	if s := running.Load(); s != nil {
		s.yield()
	}
}

func (s *sched) next() int {
	for len(s.plan) > 0 {
		k := s.plan[0]
		s.plan = s.plan[1:]
		if k < len(s.live) && s.live[k] {
			return k
		}
	}
	var a []int
	for k, l := range s.live {
		if l {
			a = append(a, k)
		}
	}
	if len(a) == 0 {
		return -1
	}
	return a[s.rng.Intn(len(a))]
}

func (s *sched) yield() {
	me, k := s.cur, s.next()
	if k == me {
		return
	}
	s.n++
	s.cur = k
	s.wake[k] <- struct{}{}
	<-s.wake[me]
}

// interleave runs the sessions and returns how often it switched.
func interleave(rng *rand.Rand, plan []int, fncs []func()) int {
	s := &sched{plan: plan, rng: rng}
	done := make(chan struct{})
	for range fncs {
		s.live = append(s.live, true)
		s.wake = append(s.wake, make(chan struct{}, 1))
	}
	for i, fnc := range fncs {
		i, fnc := i, fnc
		go func() {
			<-s.wake[i]
			fnc()
			s.live[i] = false
			if k := s.next(); k < 0 {
				close(done)
			} else {
				s.cur = k
				s.wake[k] <- struct{}{}
			}
		}()
	}
	running.Store(s)
	s.cur = s.next()
	s.wake[s.cur] <- struct{}{}
	<-done
	running.Store(nil)
	return s.n
}

var sessionKinds = []struct {
	name   string
	weight int
	fnc    func(r *Run, i int)
}{
	{"reader", 2, (*Run).readerRandom}, {"writer", 2, (*Run).writerRandom}, {"nmdcread", 4, (*Run).nmdcReadRandom}, {"nmdcwrite", 4, (*Run).nmdcWriteRandom},
	{"adcread", 4, (*Run).adcReadRandom}, {"adcwrite", 4, (*Run).adcWriteRandom}, {"nmdccodec", 6, (*Run).nmdcCodecRandom}, {"adccodec", 6, (*Run).adcCodecRandom},
	{"adcpacket", 5, (*Run).adcPacketRandom}, {"features", 2, (*Run).feRandom}, {"lock", 2, (*Run).lockRandom}, {"ids", 2, (*Run).idsRandom},
	{"tth", 1, (*Run).tthRandom}, {"keyprint", 1, (*Run).keyprintRandom}, {"addr", 2, (*Run).addrRandom}, {"info", 2, (*Run).infoRandom}, {"switch", 0, nil},
}

type sessions struct {
	*Run
	subs map[string]*Run
	next map[string]int
	kind []int
}

func (s *sessions) close(ws []*bufio.Writer, fs []*os.File) {
	for i, w := range ws {
		must(w.Flush())
		must(fs[i].Close())
	}
	for k, sub := range s.subs {
		s.Stats["sessions_"+k] = sub.cases
	}
}

func (s *sessions) seq(kind string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next[kind]++
	return s.next[kind] - 1
}

// unit returns sessions that belong together: mostly one, or the same message going to several peers.
func (s *sessions) unit(rng *rand.Rand) []func() {
	if chance(rng, 0.25) {
		return s.shared(rng)
	}
	return []func(){s.one(sessionKinds[s.kind[rng.Intn(len(s.kind))]].name)}
}

func (s *sessions) one(kind string) func() {
	for _, k := range sessionKinds {
		if k.name == kind {
			k := k
			i := s.seq(k.name)
			return func() { k.fnc(s.subs[k.name], i) }
		}
	}
	panic(kind)
}

// shared makes one value that several connections use.
func (s *sessions) shared(rng *rand.Rand) (out []func()) {
	n := 2 + rng.Intn(3)
	g := &gen{Rand: rng, cs: "utf8", wild: chance(rng, 0.2)}
	id := []interface{}{"shared", s.seq("shared")}
	prefix := randBytes(rng, rng.Intn(9), "a \\\n")
	switch rng.Intn(7) {
	case 5, 6: // one connection, the encoding of which is switched
		return s.subs["switch"].switching(id, rng)
	case 0, 1: // one NMDC message to peers with different encodings
		t := nmdcRich[rng.Intn(len(nmdcRich))]
		if chance(rng, 0.3) {
			t = nmdcTypes[rng.Intn(len(nmdcTypes))]
		}
		m := g.msg(t)
		for k := 0; k < n; k++ {
			cs := charsets[rng.Intn(len(charsets))]
			out = append(out, func() { s.subs["nmdccodec"].nmdcRound(id, cs, t, m, prefix) })
		}
	case 2: // one ADC message
		t := adcMessages[rng.Intn(len(adcMessages))]
		o := g.adcValue(t)
		for k := 0; k < n; k++ {
			out = append(out, func() { s.subs["adccodec"].adcRound(id, t, o, prefix) })
		}
	case 3: // one ADC message in packets of several kinds
		t, m := g.anyMsg()
		cmd := m.Cmd()
		for k := 0; k < n; k++ {
			a := g.apk()
			a.Cmd = cp(cmd[:])
			types := []string{adcMessages[rng.Intn(len(adcMessages))]}
			out = append(out, func() { s.subs["adcpacket"].adcPacketCase(id, a, t, m, types, prefix) })
		}
	default: // one lock
		m := &nmdc.Lock{NoExt: chance(rng, 0.6), Lock: string(randBytes(rng, pick(rng, 0, 3, 8, 40), "")), PK: "x"}
		for k := 0; k < n; k++ {
			magic := byte(rng.Intn(256))
			out = append(out, func() { s.subs["lock"].lockCase(id, m, magic) })
		}
	}
	return out
}

func suiteSessions(r *Run) {
	// the cases differ from those of the other checks
	seed := r.Seed ^ 0x5e5510
	if r.Par > 1 {
		seed += 1 << 40
	} else if r.In != "" {
		seed += 2 << 40
	}
	s := &sessions{Run: r, subs: map[string]*Run{}, next: map[string]int{}}
	var fs []*os.File
	var ws []*bufio.Writer
	for i, k := range sessionKinds {
		f, err := os.Create(r.Path + "." + k.name)
		must(err)
		w := bufio.NewWriterSize(f, 1<<20)
		fs, ws = append(fs, f), append(ws, w)
		sub := &Run{Suite: k.name, Profile: r.Profile, Seed: seed, N: 1 << 30, Deep: r.Deep, Stats: map[string]int{}}
		sub.out = json.NewEncoder(w)
		sub.out.SetEscapeHTML(false)
		s.subs[k.name] = sub
		for j := 0; j < k.weight; j++ {
			s.kind = append(s.kind, i)
		}
	}
	defer s.close(ws, fs)
	var failed atomic.Bool
	check := func() bool {
		for _, sub := range s.subs {
			if sub.stopped() {
				failed.Store(true)
			}
		}
		return !failed.Load()
	}
	if r.Par > 1 {
		// at once
		var wg sync.WaitGroup
		var done atomic.Int64
		for w := 0; w < r.Par; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := r.Rng(1000000 + w)
				for int(done.Add(1)) <= r.N && check() {
					u := s.unit(rng)
					var wg sync.WaitGroup
					for _, fnc := range u {
						fnc := fnc
						wg.Add(1)
						go func() { defer wg.Done(); fnc() }()
					}
					wg.Wait()
				}
			}()
		}
		wg.Wait()
		return
	}
	if r.In != "" {
		// every schedule of the model, with sessions of every kind against each other
		for i, l := range readLines(r.In) {
			var sc struct {
				N    int   `json:"n"`
				Plan []int `json:"plan"`
			}
			must(json.Unmarshal(l, &sc))
			rng := r.Rng(i)
			if !check() {
				return
			}
			var u []func()
			if chance(rng, 0.3) {
				u = s.shared(rng)
			}
			a := sessionKinds[i%(len(sessionKinds)-1)].name
			for k := 0; len(u) < sc.N; k++ {
				if k > 0 && chance(rng, 0.6) {
					a = sessionKinds[s.kind[rng.Intn(len(s.kind))]].name
				}
				u = append(u, s.one(a))
			}
			for k := range sc.Plan {
				sc.Plan[k]--
			}
			r.Count("switches", interleave(rng, sc.Plan, u[:sc.N]))
			r.Count("schedules", 1)
		}
		return
	}
	for i := 0; i < r.N && check(); i++ {
		rng := r.Rng(i)
		var u []func()
		for k := 2 + rng.Intn(4); len(u) < k; {
			u = append(u, s.unit(rng)...)
		}
		var plan []int
		switch rng.Intn(3) {
		case 0: // in turns
			for j := 0; j < 400; j++ {
				plan = append(plan, j%len(u))
			}
		case 1: // the first one is interrupted once by everything the others do
			for j := rng.Intn(40); j > 0; j-- {
				plan = append(plan, 0)
			}
			for k := 1; k < len(u); k++ {
				for j := 0; j < 500; j++ {
					plan = append(plan, k)
				}
			}
		}
		r.Count("switches", interleave(rng, plan, u))
		r.Count("schedules", 1)
	}
}
