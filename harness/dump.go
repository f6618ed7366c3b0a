package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/transform"

	"github.com/direct-connect/go-dc/nmdc"
)

var errType = reflect.TypeOf((*error)(nil)).Elem()

// dumpValue converts a Go value to the form the specification uses: strings are byte
// strings, numbers decimal byte strings, single bytes numbers, pointers and errors lists of at
// most one value, maps sorted lists of pairs.
func dumpValue(v reflect.Value) interface{} {
	if v.Type() == errType {
		if v.IsNil() {
			return []B{}
		}
		return []B{S(v.Interface().(error).Error())}
	}
	switch v.Kind() {
	case reflect.String:
		return S(v.String())
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return dec(v.Int())
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return decu(v.Uint())
	case reflect.Uint8:
		return int(v.Uint())
	case reflect.Array:
		out := make(B, v.Len())
		for i := range out {
			out[i] = byte(v.Index(i).Uint())
		}
		return out
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return cp(v.Bytes())
		}
		out := make([]interface{}, v.Len())
		for i := range out {
			out[i] = dumpValue(v.Index(i))
		}
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return []interface{}{}
		}
		return []interface{}{dumpValue(v.Elem())}
	case reflect.Map:
		type entry struct {
			k string
			v interface{}
		}
		var es []entry
		for _, k := range v.MapKeys() {
			es = append(es, entry{string(dumpValue(k).(B)), dumpValue(v.MapIndex(k))})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		out := make([]interface{}, 0, len(es))
		for _, e := range es {
			out = append(out, []interface{}{S(e.k), e.v})
		}
		return out
	case reflect.Struct:
		t := v.Type()
		out := M{}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type.Kind() == reflect.Struct && t.Field(i).Type.NumField() == 0 {
				continue // no arguments
			} else if t.Field(i).PkgPath != "" {
				continue // not visible to users
			}
			out[t.Field(i).Name] = dumpValue(v.Field(i))
		}
		if len(out) == 0 {
			return []int{}
		}
		return out
	}
	panic(fmt.Sprint("cannot dump ", v.Type()))
}

// loadValue is the reverse of dumpValue.
func loadValue(v reflect.Value, x interface{}) {
	bs := func(x interface{}) B {
		a := x.([]interface{})
		out := make(B, len(a))
		for i, e := range a {
			out[i] = byte(e.(float64))
		}
		return out
	}
	if v.Type() == errType {
		if a := x.([]interface{}); len(a) != 0 {
			v.Set(reflect.ValueOf(errors.New(string(bs(a[0])))))
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(string(bs(x)))
	case reflect.Bool:
		v.SetBool(x.(bool))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(string(bs(x)), 10, 64)
		must(err)
		v.SetInt(n)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(string(bs(x)), 10, 64)
		must(err)
		v.SetUint(n)
	case reflect.Uint8:
		v.SetUint(uint64(x.(float64)))
	case reflect.Array:
		b := bs(x)
		for i := range b {
			v.Index(i).SetUint(uint64(b[i]))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(bs(x))
			return
		}
		a := x.([]interface{})
		if len(a) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), len(a), len(a))
		for i := range a {
			loadValue(s.Index(i), a[i])
		}
		v.Set(s)
	case reflect.Ptr:
		a := x.([]interface{})
		if len(a) != 0 {
			p := reflect.New(v.Type().Elem())
			loadValue(p.Elem(), a[0])
			v.Set(p)
		}
	case reflect.Map:
		a := x.([]interface{})
		if len(a) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for _, e := range a {
			kv := e.([]interface{})
			key, val := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			loadValue(key, kv[0])
			loadValue(val, kv[1])
			m.SetMapIndex(key, val)
		}
		v.Set(m)
	case reflect.Struct:
		o, ok := x.(map[string]interface{})
		if !ok {
			return
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if e, ok := o[t.Field(i).Name]; ok {
				loadValue(v.Field(i), e)
			}
		}
	default:
		panic(fmt.Sprint("cannot load ", v.Type()))
	}
}

func loadJSON(v reflect.Value, raw json.RawMessage) {
	var x interface{}
	must(json.Unmarshal(raw, &x))
	loadValue(v, x)
}

func nmdcType(m nmdc.Message) string {
	switch m.(type) {
	case *nmdc.RawMessage:
		return "Raw"
	case *nmdc.ChatMessage:
		return "Chat"
	}
	return m.Type()
}

func dumpNmdc(m nmdc.Message) M {
	if m == nil {
		return M{"t": "nil", "f": []int{}}
	}
	return M{"t": nmdcType(m), "f": dumpValue(reflect.ValueOf(m).Elem())}
}

// newNmdc makes an empty message of a type.
func newNmdc(t string) nmdc.Message {
	switch t {
	case "Chat":
		return &nmdc.ChatMessage{}
	case "Raw":
		return &nmdc.RawMessage{}
	}
	m := nmdc.NewMessage(t)
	if _, ok := m.(*nmdc.RawMessage); ok {
		die("unknown message type", t)
	}
	return m
}

func loadNmdc(t string, raw json.RawMessage) nmdc.Message {
	m := newNmdc(t)
	loadJSON(reflect.ValueOf(m).Elem(), raw)
	return m
}

var charsets = []string{"utf8", "cp1251", "cp1250", "koi8-r", "gbk"}

// strictEncoding is ASCII; everything else is an error.
type strictEncoding struct{}

type strictTransformer struct{ transform.NopResetter }

var errStrict = errors.New("strict: not ASCII")

func (strictTransformer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
	for nSrc < len(src) {
		if src[nSrc] >= 0x80 {
			return nDst, nSrc, errStrict
		}
		if nDst == len(dst) {
			return nDst, nSrc, transform.ErrShortDst
		}
		dst[nDst] = src[nSrc]
		nDst++
		nSrc++
	}
	return nDst, nSrc, nil
}

func (strictEncoding) NewDecoder() *encoding.Decoder {
	return &encoding.Decoder{Transformer: strictTransformer{}}
}

func (strictEncoding) NewEncoder() *encoding.Encoder {
	return &encoding.Encoder{Transformer: strictTransformer{}}
}

func charsetOf(cs string) encoding.Encoding {
	switch cs {
	case "strict":
		return strictEncoding{}
	case "cp1251":
		return charmap.Windows1251
	case "cp1250":
		return charmap.Windows1250
	case "koi8-r":
		return charmap.KOI8R
	case "gbk":
		return simplifiedchinese.GBK
	}
	return nil
}

func encOf(cs string) *nmdc.TextEncoder {
	if c := charsetOf(cs); c != nil {
		return c.NewEncoder()
	}
	return nil
}

func decOf(cs string) *nmdc.TextDecoder {
	if c := charsetOf(cs); c != nil {
		return c.NewDecoder()
	}
	return nil
}
