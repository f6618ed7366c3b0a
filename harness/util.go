package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// B is a byte string; it is written to traces as an array of integers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(c), 10)
	}
	return append(out, ']'), nil
}

func (b *B) UnmarshalJSON(p []byte) error {
	var a []int
	if err := json.Unmarshal(p, &a); err != nil {
		return err
	}
	*b = make(B, len(a))
	for i, v := range a {
		(*b)[i] = byte(v)
	}
	return nil
}

func S(s string) B { return B(s) }

func cp(b []byte) B { return append(B{}, b...) }

// M is a generic record.
type M map[string]interface{}

// Suite produces cases of one kind.
type Suite func(r *Run)

// Run is one run of a suite.
type Run struct {
	Suite   string
	Profile string // what to concentrate on
	Seed    int64
	N       int // requested number of random cases
	Deep    bool
	In      string // file with scenarios from the model, if any
	Path    string // trace
	out     *json.Encoder
	mu      sync.Mutex
	cases   int
	stop    bool
	only    int // replay only this case
	Par     int // goroutines running cases
	Stats   map[string]int
}

var lastCase atomic.Int64

// Count counts something for the evidence.
func (r *Run) Count(key string, n int) {
	r.mu.Lock()
	r.Stats[key] += n
	r.mu.Unlock()
}

// each runs the random cases.
func (r *Run) each(fnc func(i int)) {
	if r.Par <= 1 {
		for i := 0; i < r.N && !r.stopped(); i++ {
			fnc(i)
		}
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < r.Par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.stopped() {
				i := int(next.Add(1)) - 1
				if i >= r.N {
					return
				}
				fnc(i)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stop
}

// halt ends the run after the current cases.
func (r *Run) halt() {
	r.mu.Lock()
	r.stop = true
	r.mu.Unlock()
}

// watch ends the process when no case ends for long: the code under test hangs where no case notices.
func (r *Run) watch() {
	lastCase.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, lastCase.Load())) > 2*hangAfter {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG: no case ends\n%s\n", buf)
				os.Exit(4)
			}
		}
	}()
}

// Rng returns the random source of a case.
func (r *Run) Rng(id int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", r.Suite, r.Seed, id)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Emit writes a case to the trace.
func (r *Run) Emit(c M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.out.Encode(c); err != nil {
		panic(err)
	}
	r.cases++
	lastCase.Store(time.Now().UnixNano())
}

var (
	errTmp  = errors.New("temporary transport error")
	errHook = errors.New("hook failed")
	errUser = errors.New("injected failure")
)

func errClass(err error) string {
	if err != nil {
		_ = err.Error()
	}
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errTmp):
		return "tmp"
	case errors.Is(err, errHook):
		return "hook"
	case err == io.EOF:
		return "eof"
	}
	return "other"
}

const (
	hangAfter = 40 * time.Second
	hangMem   = 6 << 30
)

// call runs fnc and tells if it panicked ("panic: ...").
func call(fnc func()) (pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint("panic: ", p)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	fnc()
	return ""
}

// guarded runs a whole case with a watchdog. It returns false if the case does not end.
func guarded(fnc func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fnc()
	}()
	t0 := time.Now()
	tick := time.NewTimer(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return true
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if time.Since(t0) > hangAfter || ms.HeapAlloc > hangMem {
				return false
			}
			tick.Reset(200 * time.Millisecond)
		}
	}
}

// Guard runs one case; events made so far are taken from ev if it hangs, after which the
// run ends.
type Events struct {
	mu sync.Mutex
	ev []M
	op M // the operation in progress
}

func (e *Events) Begin(m M) {
	e.mu.Lock()
	e.op = m
	e.mu.Unlock()
}

func (e *Events) End(m M) {
	e.mu.Lock()
	e.op = nil
	e.ev = append(e.ev, m)
	e.mu.Unlock()
}

// Do runs one operation and records it; a panic is recorded as its error.
// It returns false after a panic.
func (e *Events) Do(m M, fnc func(m M)) bool {
	hang := M{}
	for k, v := range m {
		hang[k] = v
	}
	e.Begin(hang)
	yield()
	p := call(func() { fnc(m) })
	yield()
	if p != "" {
		m["err"] = "panic"
		m["text"] = p
	}
	e.End(m)
	return p == ""
}

func (e *Events) snapshot() []M {
	e.mu.Lock()
	defer e.mu.Unlock()
	out := append([]M{}, e.ev...)
	if e.op != nil {
		m := M{}
		for k, v := range e.op {
			m[k] = v
		}
		m["err"] = "hang"
		out = append(out, m)
	}
	return out
}

// Session runs a recorded session and emits it.
func (r *Run) Session(head M, fnc func(e *Events)) {
	if r.stopped() {
		return
	}
	e := &Events{ev: []M{}}
	ok := guarded(func() {
		fnc(e) // a panic outside of an operation ends the process
	})
	head["ev"] = e.snapshot()
	r.Emit(head)
	if !ok {
		r.halt()
		fmt.Fprintln(os.Stderr, "case does not end; stopping")
	}
}

func die(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("harness error:", err)
	}
}

func pick(rng *rand.Rand, n ...int) int { return n[rng.Intn(len(n))] }

func pickS(rng *rand.Rand, s ...string) string { return s[rng.Intn(len(s))] }

func chance(rng *rand.Rand, p float64) bool { return rng.Float64() < p }

func randBytes(rng *rand.Rand, n int, alphabet string) B {
	b := make(B, n)
	for i := range b {
		if alphabet == "" {
			b[i] = byte(rng.Intn(256))
		} else {
			b[i] = alphabet[rng.Intn(len(alphabet))]
		}
	}
	return b
}

func readLines(path string) [][]byte {
	data, err := os.ReadFile(path)
	must(err)
	var out [][]byte
	for _, l := range bytes.Split(data, []byte("\n")) {
		if len(bytes.TrimSpace(l)) != 0 {
			out = append(out, l)
		}
	}
	return out
}

func dec(n int64) B   { return B(strconv.FormatInt(n, 10)) }
func decu(n uint64) B { return B(strconv.FormatUint(n, 10)) }

// want turns an unexpected failure of the real code into a panic, which is recorded.
func want(err error) {
	if err != nil {
		panic("unexpected error: " + err.Error())
	}
}

// keepCopy returns a pointer to a shallow copy of what o points to.
func keepCopy(o interface{}) interface{} {
	v := reflect.ValueOf(o)
	if v.Kind() != reflect.Ptr {
		return o
	}
	c := reflect.New(v.Elem().Type())
	c.Elem().Set(v.Elem())
	return c.Interface()
}

// sibling returns an input of the same form with other letters and digits.
func sibling(b []byte) []byte {
	out := make([]byte, 0, len(b)+3)
	for _, c := range b {
		switch {
		case c >= 'a' && c < 'z', c >= 'A' && c < 'Z', c >= '1' && c < '7':
			c++
		}
		out = append(out, c)
	}
	return out
}
