package main

import (
	"bytes"
	"encoding/json"

	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["lock"] = suiteLock }

func (r *Run) lockCase(id interface{}, m *nmdc.Lock, magic byte) {
	f := func() interface{} { return dumpNmdc(m)["f"] }
	r.Count("cases_of_length_"+lenClass(len(m.Lock)), 1)
	c := M{"id": id, "f": f(), "magic": int(magic)}
	one := func(key func() *nmdc.Key, text func() string) M {
		out := M{"st": "ok", "key": B{}, "wire": B{}, "back": B{}, "text": B{}}
		p := call(func() {
			k := key()
			churn()
			out["key"] = S(k.Key)
			out["text"] = S(text())
			buf := bytes.NewBuffer(nil)
			want(nmdc.MarshalTo(nil, buf, k))
			out["wire"] = cp(buf.Bytes())
			m, err := nmdc.Unmarshal(nil, buf.Bytes())
			if err != nil {
				out["st"] = "err"
				return
			}
			out["back"] = S(m.(*nmdc.Key).Key)
		})
		if p != "" {
			out["st"] = "panic"
			out["text"] = p
		}
		return out
	}
	c["def"] = one(m.Key, func() string { return m.LockString(false) })
	c["short"] = one(func() *nmdc.Key { return m.CustomKey(magic, false) }, func() string { return m.LockString(false) })
	c["full"] = one(func() *nmdc.Key { return m.CustomKey(magic, true) }, func() string { return m.LockString(true) })
	c["after"] = f()
	r.Emit(c)
}

func lenClass(n int) string {
	switch {
	case n < 4:
		return itoa(n)
	case n < 20:
		return "4_to_19"
	}
	return "20_and_more"
}

func suiteLock(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				Lock  B    `json:"lock"`
				Magic int  `json:"magic"`
				NoExt bool `json:"noext"`
			}
			must(json.Unmarshal(l, &s))
			r.lockCase([]interface{}{"model", i}, &nmdc.Lock{Lock: string(s.Lock), NoExt: s.NoExt}, byte(s.Magic))
		}
		return
	}
	// every pair of neighbouring bytes, and every constant
	for a := 0; a < 256; a++ {
		if !r.Deep && a%4 != int(r.Seed)%4 {
			continue
		}
		lock := make([]byte, 0, 512)
		for b := 0; b < 256; b++ {
			lock = append(lock, byte(a), byte(b))
		}
		r.lockCase([]interface{}{"pairs", a}, &nmdc.Lock{Lock: string(lock), NoExt: a%2 == 0}, byte(a))
	}
	// every first byte of a key
	for a := 0; a < 256; a++ {
		r.lockCase([]interface{}{"first", a}, &nmdc.Lock{Lock: string([]byte{byte(a), 7, 7}), NoExt: true}, 0)
	}
	r.each(r.lockRandom)
}

func (r *Run) lockRandom(i int) {
	rng := r.Rng(i)
	n := pick(rng, 0, 1, 2, 3, 4, 5, 8, 16, 40, 100)
	if chance(rng, 0.3) {
		n = rng.Intn(60)
	}
	alpha := ""
	switch rng.Intn(3) {
	case 0:
		alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ()[]!%&/=abc0123456789_-"
	case 1:
		alpha = "\x00\x05$`|~\x50\x42\x06\xc7\xe7A"
	}
	m := &nmdc.Lock{NoExt: chance(rng, 0.6), Lock: string(randBytes(rng, n, alpha))}
	if chance(rng, 0.2) {
		// words of the protocol inside the lock itself
		m.Lock = pickS(rng, "EXTENDEDPROTOCOL", "EXTENDEDPROTO", "extendedprotocol", "Pk=", "Lock", "/%DCN036%/", "EXTENDEDPROTOCOLEXTENDEDPROTOCOL") + m.Lock
	}
	if chance(rng, 0.5) {
		m.PK = string(randBytes(rng, rng.Intn(20), "DCPLUS0.698ABC verlihub"))
	}
	if chance(rng, 0.3) {
		m.Ref = string(randBytes(rng, rng.Intn(20), "dchub://.:41a"))
	}
	r.lockCase(i, m, byte(pick(rng, 5, 5, 0, 255, rng.Intn(256))))
}
