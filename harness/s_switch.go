package main

import (
	"bytes"
	"math/rand"
	"sync"

	"github.com/direct-connect/go-dc/nmdc"
)

// The encoding of a connection switched by one goroutine while another one writes or reads messages.

var switchTexts = []string{"привет", "Жук и 8 слонов", "Ёж", "я", "ТЕСТ тест", "plain"}

// history is a sequence of events of several goroutines.
type history struct {
	mu sync.Mutex
	ev []M
}

func (h *history) add(m M) {
	h.mu.Lock()
	h.ev = append(h.ev, m)
	h.mu.Unlock()
}

// switching returns what the two goroutines do; the one that ends last records the case.
func (r *Run) switching(id interface{}, rng *rand.Rand) []func() {
	css := []string{"utf8", "cp1251", "koi8-r"}
	dir := pickS(rng, "w", "r")
	if dir == "r" {
		css = css[1:]
	}
	h := &history{ev: []M{}}
	cs := pickS(rng, css...)
	var plan []string
	for n := 1 + rng.Intn(20); n > 0; n-- {
		plan = append(plan, pickS(rng, css...))
	}
	var msgs []*nmdc.ChatMessage
	for n := 1 + rng.Intn(20); n > 0; n-- {
		msgs = append(msgs, &nmdc.ChatMessage{Name: pickS(rng, "nick", "Имя", "ник"), Text: pickS(rng, switchTexts...)})
	}
	left := 2
	end := func() {
		h.mu.Lock()
		left--
		last := left == 0
		h.mu.Unlock()
		if last {
			r.Emit(M{"id": id, "dir": dir, "cs": cs, "ev": h.ev})
		}
	}
	var set func(cs string)
	var run func()
	if dir == "w" {
		t := &nwTransport{limit: -1}
		w := nmdc.NewWriter(t)
		w.SetEncoder(encOf(cs))
		w.OnMessage(func(m nmdc.Message) (bool, error) { yield(); return true, nil })
		set = func(cs string) { w.SetEncoder(encOf(cs)); _ = w.Encoder() }
		run = func() {
			for _, m := range msgs {
				e := M{"k": "me", "st": "ok", "t": "Chat", "f": dumpNmdc(m)["f"], "wire": B{}, "body": B{}}
				n := len(t.wire)
				h.add(M{"k": "mb"})
				yield()
				p := call(func() {
					want(w.WriteMsg(m))
					want(w.Flush())
				})
				yield()
				e["wire"] = cp(t.wire[n:])
				if p != "" {
					e["st"] = p
				}
				h.add(e)
			}
		}
	} else {
		buf := bytes.NewBuffer(nil)
		var frames [][]byte
		for _, m := range msgs {
			n := buf.Len()
			must(nmdc.MarshalTo(encOf(pickS(rng, css...)), buf, m))
			frames = append(frames, cp(buf.Bytes()[n:]))
		}
		rd := nmdc.NewReader(&scriptReader{data: buf.Bytes(), chunks: randChunks(rng, buf.Len(), false)})
		rd.SetDecoder(decOf(cs))
		rd.OnRawMessage(func(cmd, args []byte) (bool, error) { yield(); return true, nil })
		rd.OnMessage(func(m nmdc.Message) (bool, error) { yield(); return true, nil })
		set = func(cs string) { rd.SetDecoder(decOf(cs)); _ = rd.Decoder() }
		run = func() {
			for _, f := range frames {
				e := M{"k": "me", "st": "ok", "t": "Chat", "f": M{"Name": B{}, "Text": B{}}, "wire": B{}, "body": cp(f[:len(f)-1])}
				h.add(M{"k": "mb"})
				yield()
				p := call(func() {
					m, err := rd.ReadMsg()
					want(err)
					e["f"] = dumpNmdc(m)["f"]
				})
				yield()
				if p != "" {
					e["st"] = p
				}
				h.add(e)
			}
		}
	}
	return []func(){
		func() {
			run()
			end()
		},
		func() {
			for _, cs := range plan {
				h.add(M{"k": "sb", "cs": cs})
				yield()
				set(cs)
				yield()
				h.add(M{"k": "se"})
			}
			end()
		},
	}
}
