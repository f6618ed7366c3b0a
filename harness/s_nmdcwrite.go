package main

import (
	"errors"
	"reflect"

	"github.com/direct-connect/go-dc/nmdc"
)

func init() { suites["nmdcwrite"] = suiteNmdcWrite }

// scramble changes everything a value refers to.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("#####")
	case reflect.Uint8:
		v.SetUint('#')
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(77)
	case reflect.Uint64, reflect.Uint, reflect.Uint32:
		v.SetUint(77)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

type nwTransport struct {
	wire   []byte
	limit  int // fail after this many bytes, if not negative
	failed bool
}

func (t *nwTransport) Write(p []byte) (int, error) {
	yield()
	defer yield()
	if t.limit >= 0 && len(t.wire)+len(p) > t.limit {
		n := t.limit - len(t.wire)
		if t.failed {
			n = 0
		}
		t.wire = append(t.wire, p[:n]...)
		t.failed = true
		return n, errUser
	}
	t.wire = append(t.wire, p...)
	return len(p), nil
}

func nwErr(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errHook):
		return "hook"
	}
	return "other"
}

// small keeps messages whose encoding is not determined out of sessions.
func small(m nmdc.Message) bool {
	i, ok := m.(*nmdc.MyINFO)
	return !ok || len(i.Extra) <= 1
}

func (r *Run) nmdcWriteRandom(id int) {
	rng := r.Rng(id)
	cs := charsets[rng.Intn(len(charsets))]
	if chance(rng, 0.4) {
		cs = "utf8"
	}
	hooks := 0
	if r.Profile == "C07" || chance(rng, 0.4) {
		hooks = rng.Intn(4)
	}
	pDrop := []float64{0, 0.1, 0.4}[rng.Intn(3)]
	pErr := []float64{0, 0.02, 0.2}[rng.Intn(3)]
	limit := -1
	if chance(rng, 0.12) {
		limit = rng.Intn(400)
	}
	bufSize := pick(rng, 0, 0, 16, 64, 4096)
	zon := chance(rng, 0.25)
	head := M{"id": id, "cs": cs, "hooks": hooks}
	r.Session(head, func(e *Events) {
		t := &nwTransport{limit: limit}
		w := nmdc.NewWriterSize(t, bufSize)
		if bufSize == 0 && chance(rng, 0.5) {
			w = nmdc.NewWriter(t)
		}
		w.SetEncoder(encOf(cs))
		var g *gen
		setenc := func() {
			cs := charsets[rng.Intn(len(charsets))]
			g.cs = cs
			w.SetEncoder(encOf(cs))
			e.End(M{"k": "setenc", "cs": cs})
		}
		addHook := func(i int) {
			w.OnMessage(func(m nmdc.Message) (bool, error) {
				yield()
				ret := "ok"
				if chance(rng, pErr) {
					ret = "err"
				} else if chance(rng, pDrop) {
					ret = "drop"
				}
				if ret == "drop" && chance(rng, 0.3) {
					setenc()
				}
				e.End(M{"k": "hook", "i": i, "m": dumpNmdc(m), "ret": ret})
				r.Count("hook_"+ret, 1)
				switch ret {
				case "err":
					return chance(rng, 0.5), errHook
				case "drop":
					return false, nil
				}
				return true, nil
			})
		}
		last := hooks
		for i := 1; i <= hooks; i++ {
			addHook(i)
		}
		g = &gen{Rand: rng, cs: cs, wild: chance(rng, 0.3), plain: chance(rng, 0.3)}
		var starts []int
		seen, active := 0, false
		finish := func(m M, err error) {
			m["err"] = nwErr(err)
			dec, bad := decodeWire(t.wire, starts)
			if bad || len(dec) < seen {
				panic("what was written cannot be decoded")
			}
			m["wire"] = cp(dec[seen:])
			seen = len(dec)
			m["tf"] = t.failed
		}
		ev := func(k string, fnc func() error) M {
			m := M{"k": k, "err": "", "wire": B{}, "tf": false, "after": []M{}}
			if !e.Do(m, func(m M) { finish(m, fnc()) }) {
				return nil
			}
			return m
		}
		n := 2 + rng.Intn(10)
		for i := 0; i < n; i++ {
			switch x := rng.Float64(); {
			case x < 0.07:
				if ev("ka", w.WriteKeepAlive) == nil {
					return
				}
			case x < 0.22:
				if ev("flush", w.Flush) == nil {
					return
				}
			case x < 0.24 && last < 4:
				last++
				addHook(last)
				e.End(M{"k": "addhook"})
			case x < 0.27:
				setenc()
			case x < 0.4 && zon && !active:
				lvl := pick(rng, -3, -2, -1, 0, 1, 5, 9, 10)
				m := M{"k": "zon", "lvl": lvl, "err": "", "wire": B{}, "tf": false, "after": []M{}}
				if !e.Do(m, func(m M) {
					var err error
					if lvl == -1 {
						err = w.ZOn()
					} else {
						err = w.ZOnLevel(lvl)
					}
					if err == nil {
						active = true
						starts = append(starts, len(t.wire))
					}
					finish(m, err)
				}) {
					return
				}
			case x < 0.34 && active:
				active = false
				if ev("zoff", w.DisableZlib) == nil {
					return
				}
			default:
				k := pick(rng, 0, 1, 1, 1, 1, 2, 3, 5)
				var ms []nmdc.Message
				for len(ms) < k {
					m := g.msg(g.one(nmdcTypes))
					if chance(rng, 0.5) {
						m = g.msg(g.one(nmdcRich))
					}
					if small(m) {
						ms = append(ms, m)
					}
				}
				dump := func() []M {
					out := make([]M, len(ms))
					for i := range ms {
						out[i] = dumpNmdc(ms[i])
					}
					return out
				}
				e.End(M{"k": "call", "msgs": dump()})
				m := M{"k": "ret", "err": "", "wire": B{}, "tf": false, "after": []M{}}
				if !e.Do(m, func(m M) {
					err := w.WriteMsg(ms...)
					m["after"] = dump()
					for _, x := range ms {
						scramble(reflect.ValueOf(x))
					}
					finish(m, err)
					r.Count("write_"+nwErr(err), 1)
				}) {
					return
				}
			}
		}
		ev("flush", w.Flush)
	})
}

func suiteNmdcWrite(r *Run) {
	r.each(r.nmdcWriteRandom)
}
