package main

import (
	"encoding/json"
	"errors"
	"io"
	"math/rand"

	"github.com/direct-connect/go-dc/tiger"
)

func init() { suites["tth"] = suiteTth }

// thNames gives names to hashes.
type thNames struct {
	ids   map[tiger.Hash]int
	table [][]int
}

func (t *thNames) name(h tiger.Hash) int {
	id, ok := t.ids[h]
	if !ok {
		id = len(t.ids) + 1
		t.ids[h] = id
	}
	return id
}

func (t *thNames) known(h tiger.Hash) int {
	if id, ok := t.ids[h]; ok {
		return id
	}
	return -1
}

func (t *thNames) names(l []tiger.Hash) []int {
	out := []int{}
	for _, h := range l {
		out = append(out, t.known(h))
	}
	return out
}

// nodes makes the nodes over leaves a..b-1 and returns the hash of the topmost.
func (t *thNames) nodes(l []tiger.Hash, a, b int) tiger.Hash {
	if b-a == 1 {
		return l[a]
	}
	m := 1
	for 2*m < b-a {
		m *= 2
	}
	x, y := t.nodes(l, a, a+m), t.nodes(l, a+m, b)
	h := prim([]byte{1}, x[:], y[:])
	t.table = append(t.table, []int{t.name(x), t.name(y), t.name(h)})
	return h
}

// thSource delivers data in parts.
type thSource struct {
	data   []byte
	fail   error // at the end of the data
	script func(left, asked int) (n int, last bool)
	log    []string
	ended  bool
}

func (s *thSource) Read(p []byte) (int, error) {
	yield()
	defer yield()
	if s.ended {
		s.log = append(s.log, "again")
		return 0, s.fail
	}
	n, last := s.script(len(s.data), len(p))
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	// the rest of the buffer is scratch space
	for i := n; i < len(p) && i < n+7; i++ {
		p[i] = 0xA5
	}
	s.data = s.data[n:]
	if len(s.data) == 0 && last {
		s.ended = true
		if s.fail == io.EOF {
			s.log = append(s.log, "eof")
		} else {
			s.log = append(s.log, "err")
		}
		return n, s.fail
	}
	s.log = append(s.log, "")
	return n, nil
}

type thNew func() func(left, asked int) (int, bool)

func (r *Run) tthCase(id interface{}, data []byte, failAt int, fail error, script thNew) {
	r.Count("streams", 1)
	if failAt >= 0 {
		r.Count("failing", 1)
	}
	t := &thNames{ids: map[tiger.Hash]int{}, table: [][]int{}}
	var leaves []tiger.Hash
	for i := 0; i == 0 || i < len(data); i += 1024 {
		j := i + 1024
		if j > len(data) {
			j = len(data)
		}
		h := prim([]byte{0}, data[i:j])
		leaves = append(leaves, h)
		t.name(h)
	}
	if len(leaves) > 1 {
		t.nodes(leaves, 0, len(leaves))
	}
	if len(t.table) == 0 {
		t.table = append(t.table, []int{0, 0, 0})
	}
	source := func() *thSource {
		s := &thSource{data: cp(data), fail: io.EOF, script: script()}
		if failAt >= 0 {
			s.data, s.fail = s.data[:failAt], fail
		}
		return s
	}
	blocks := []int{}
	for _, h := range leaves {
		blocks = append(blocks, t.name(h))
	}
	c := M{"id": id, "k": "data", "len": len(data), "fail": failAt >= 0, "blocks": blocks, "table": t.table,
		"root": M{"st": "hang", "h": 0}, "leaves": M{"st": "hang", "l": []int{}}, "red": M{"st": "hang", "h": 0}, "after": []int{}}
	s1, s2 := source(), source()
	ok := guarded(func() {
		out := M{"st": "ok", "h": -1}
		if p := call(func() {
			h, err := tiger.TreeHash(s1)
			if err != nil {
				out["st"] = "err"
				if errors.Is(err, fail) {
					out["st"] = "failed"
				}
				return
			}
			churn()
			out["h"] = t.known(h)
		}); p != "" {
			out["st"] = "panic"
		}
		c["root"] = out
		var lvl tiger.Leaves
		out = M{"st": "ok", "l": []int{}}
		if p := call(func() {
			var err error
			lvl, err = tiger.TreeLeaves(s2)
			if err != nil {
				out["st"] = "err"
				if errors.Is(err, fail) {
					out["st"] = "failed"
				}
				return
			}
			out["l"] = t.names(lvl)
		}); p != "" {
			out["st"] = "panic"
		}
		c["leaves"] = out
		out = M{"st": "ok", "h": -1}
		if p := call(func() {
			out["h"] = t.known(lvl.TreeHash())
		}); p != "" {
			out["st"] = "panic"
		}
		c["red"] = out
		c["after"] = t.names(lvl)
	})
	c["reads1"], c["reads2"] = short(s1.log), short(s2.log)
	r.Emit(c)
	if !ok {
		r.halt()
	}
}

// short leaves out most of the reads in the middle that went well.
func short(l []string) []string {
	out := []string{}
	for i, x := range l {
		if x != "" || i < 3 || i == len(l)-1 {
			out = append(out, x)
		}
	}
	return out
}

func (r *Run) tthList(id interface{}, l tiger.Leaves) {
	r.Count("lists", 1)
	t := &thNames{ids: map[tiger.Hash]int{}, table: [][]int{}}
	blocks := []int{}
	for _, h := range l {
		blocks = append(blocks, t.name(h))
	}
	t.nodes(l, 0, len(l))
	if len(t.table) == 0 {
		t.table = append(t.table, []int{0, 0, 0})
	}
	c := M{"id": id, "k": "list", "len": 0, "fail": false, "blocks": blocks, "table": t.table}
	out := M{"st": "ok", "h": -1}
	// room behind the list, which belongs to somebody else
	big := append(append(tiger.Leaves{}, l...), junkHash, junkHash, junkHash)
	in := big[:len(l)]
	if p := call(func() { out["h"] = t.known(in.TreeHash()) }); p != "" {
		out["st"] = "panic"
	}
	for _, h := range big[len(l):] {
		if h != junkHash {
			out["st"] = "overwritten"
		}
	}
	c["root"] = out
	c["after"] = t.names(in)
	r.Emit(c)
}

func thChunks(rng *rand.Rand) thNew {
	kind := rng.Intn(7)
	seed := rng.Int63()
	fixed := pick(rng, 1, 7, 512, 1000, 1023, 1024, 1025, 2048, 4096)
	together := chance(rng, 0.5)
	return func() func(left, asked int) (int, bool) {
		rng := rand.New(rand.NewSource(seed))
		stutter := 0
		return func(left, asked int) (n int, last bool) {
			last = together || left == 0
			switch kind {
			case 0, 1:
				n = asked
			case 2:
				n = fixed
			case 3:
				n = 1 + rng.Intn(asked)
			case 4:
				n = pick(rng, 1, 2, asked-1, asked, asked/2, 1024, 1)
			case 5:
				n = rng.Intn(asked + 1)
			case 6:
				n = 1 + rng.Intn(3000)
			}
			if n <= 0 {
				n = 0
				if stutter++; stutter > 5 {
					stutter, n = 0, 1
				}
			}
			return
		}
	}
}

var thErrs = []error{errUser, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress}

func suiteTth(r *Run) {
	whole := func() func(left, asked int) (int, bool) {
		return func(left, asked int) (int, bool) { return asked, left == 0 }
	}
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				Len    int             `json:"len"`
				Script [][]interface{} `json:"script"`
			}
			must(json.Unmarshal(l, &s))
			rng := r.Rng(i)
			const scale = 512
			data := randBytes(rng, s.Len*scale, "")
			failAt, got := -1, 0
			for _, x := range s.Script {
				got += int(x[0].(float64)) * scale
				if x[1] == "err" {
					failAt = got
				}
			}
			r.tthCase([]interface{}{"model", i}, data, failAt, thErrs[i%len(thErrs)], func() func(left, asked int) (int, bool) {
				k := 0
				return func(left, asked int) (int, bool) {
					if k >= len(s.Script) {
						return asked, true
					}
					x := s.Script[k]
					k++
					return int(x[0].(float64)) * scale, x[1] != ""
				}
			})
		}
		return
	}
	// every number of blocks, short of, at and past the edge
	id := 0
	max := 34
	if r.Deep {
		max = 300
	}
	for n := 0; n <= max; n++ {
		for _, d := range []int{-1, 0, 1} {
			if l := n*1024 + d; l >= 0 {
				id++
				rng := r.Rng(1000000 + id)
				r.tthCase([]interface{}{"size", l}, randBytes(rng, l, ""), -1, nil, whole)
			}
		}
		rng := r.Rng(2000000 + n)
		l := make(tiger.Leaves, n+1)
		for i := range l {
			rng.Read(l[i][:])
			if i > 0 && chance(rng, 0.1) {
				l[i] = l[rng.Intn(i)]
			}
		}
		r.tthList([]interface{}{"list", n + 1}, l)
	}
	for _, n := range []int{63, 64, 65, 127, 128, 129, 200, 255, 256, 257} {
		if !r.Deep && n > 130 && n%2 == int(r.Seed)%2 {
			continue
		}
		r.tthCase([]interface{}{"blocks", n}, randBytes(r.Rng(3000000+n), n*1024-n%3, ""), -1, nil, thChunks(r.Rng(n)))
	}
	// trees of more than ten levels
	large := []int{1024 + r.Rng(7).Intn(3), 1025 + r.Rng(8).Intn(900)}
	if r.Deep {
		large = []int{1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097}
	}
	for _, n := range large {
		r.tthCase([]interface{}{"blocks", n}, randBytes(r.Rng(3000000+n), n*1024-n%3, ""), -1, nil, thChunks(r.Rng(n)))
		l := make(tiger.Leaves, n)
		for i := range l {
			r.Rng(4000000 + n + i).Read(l[i][:])
		}
		r.tthList([]interface{}{"list", n}, l)
	}
	// lists of more leaves than fit small counters
	long := []int{2048 + r.Rng(9).Intn(300), 4096 + r.Rng(10).Intn(600)}
	if r.Deep {
		long = append(long, 8192, 10000, 16385)
	}
	for _, n := range long {
		l := make(tiger.Leaves, n)
		r1 := r.Rng(5000000 + n)
		for i := range l {
			r1.Read(l[i][:])
		}
		r.tthList([]interface{}{"list", n}, l)
	}
	r.tthCase([]interface{}{"blocks", long[0]}, randBytes(r.Rng(6000000), long[0]*1024-5, ""), -1, nil, whole)
	r.each(r.tthRandom)
}

func (r *Run) tthRandom(i int) {
	rng := r.Rng(i)
	n := pick(rng, 0, 1, 2, 3, 5, 8, 13, 17)*1024 + rng.Intn(2048) - 1024
	if n < 0 {
		n = rng.Intn(3)
	}
	data := randBytes(rng, n, "")
	switch rng.Intn(8) {
	case 0: // equal blocks
		for j := range data {
			data[j] = data[j%1024]
		}
	case 1:
		data = make([]byte, n)
	}
	failAt := -1
	if chance(rng, 0.3) {
		failAt = rng.Intn(n + 1)
		if chance(rng, 0.4) {
			failAt -= failAt % 1024
		}
	}
	r.tthCase(i, data, failAt, thErrs[rng.Intn(len(thErrs))], thChunks(rng))
}
