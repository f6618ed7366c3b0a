package main

import (
	"errors"
	"reflect"
	"strings"
)

// leaf is one value inside a message, reached by get from a fresh message.
type leaf struct {
	path string
	get  func(v reflect.Value) reflect.Value
}

// leaves lists the values inside a value: fields, elements of lists, what pointers refer to.
func leaves(v reflect.Value, path string, get func(reflect.Value) reflect.Value) []leaf {
	if v.Type() == errType {
		return []leaf{{path, get}}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return leaves(v.Elem(), path, func(r reflect.Value) reflect.Value { return get(r).Elem() })
	case reflect.Struct:
		var out []leaf
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			if tag := v.Type().Field(i).Tag.Get("adc"); v.Type() == reflect.TypeOf(adcCustom{}) && len(tag) < 2 && tag != "#" {
				continue // not sent
			}
			i := i
			out = append(out, leaves(v.Field(i), path+"."+v.Type().Field(i).Name, func(r reflect.Value) reflect.Value { return get(r).Field(i) })...)
		}
		return out
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return []leaf{{path, get}}
		}
		var out []leaf
		for i := 0; i < v.Len(); i++ {
			i := i
			out = append(out, leaves(v.Index(i), path+"[]", func(r reflect.Value) reflect.Value { return get(r).Index(i) })...)
		}
		return out
	case reflect.Array, reflect.Map, reflect.Func, reflect.Interface:
		return nil
	}
	return []leaf{{path, get}}
}

var fieldTexts = []string{
	"", " ", "a b", " a", "a ", "$", "$$", "a$", "|", "&", "&amp;", "&#36;", "<", ">", "<a> ", "a>", "> b", "\x00", "\r", "\n", "\t", "\x05", "\\", "a\\", "\\b",
	"/", ",", ":", "(", ")", "?", "#", "+", "-", "0", "TTH:", "Hub:", "EXTENDEDPROTOCOL", "Ref=", " Pk=", " V:1", " From: ", "S", "R", "NS",
	"中", "ж", "ł", "\xff", "\xc3", "😀", "/%DCN036%/", "\\s", "\\n", "\\\\", "ü", strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 257),
	strings.Repeat("n", 254) + "<", strings.Repeat("n", 253) + "ж",
}

var fieldInts = []int64{-1 << 63, -1 << 31, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 29, 31, 32, 63, 64, 90, 99, 100, 127, 128, 199, 255, 256, 999, 1000, 32766, 32767, 32768, 65535, 65536,
	999999999, 1000000000, 1<<31 - 1, 1 << 31, 1<<53 - 1, 1<<62 - 1, 1 << 62, 1<<63 - 1}

var fieldUints = []uint64{1 << 63, 1<<63 + 1, 1<<64 - 1}

// variants calls f with the message that mk makes, after each of its values was replaced by
// each of the interesting values of its kind.
func variants(mk func() reflect.Value, f func(path string, v reflect.Value)) {
	id := func(r reflect.Value) reflect.Value { return r }
	for _, l := range leaves(mk(), "", id) {
		set := func(do func(v reflect.Value)) {
			m := mk()
			v := l.get(m)
			if !v.CanSet() {
				return
			}
			do(v)
			f(l.path, m)
		}
		v := l.get(mk())
		switch {
		case v.Type() == errType:
			set(func(v reflect.Value) { v.Set(reflect.Zero(v.Type())) })
			for _, s := range fieldTexts {
				set(func(v reflect.Value) { v.Set(reflect.ValueOf(errors.New(s))) })
			}
		case v.Kind() == reflect.String:
			for _, s := range fieldTexts {
				set(func(v reflect.Value) { v.SetString(s) })
			}
		case v.Kind() == reflect.Slice:
			for _, s := range fieldTexts {
				set(func(v reflect.Value) { v.SetBytes([]byte(s)) })
			}
		case v.Kind() == reflect.Bool:
			set(func(v reflect.Value) { v.SetBool(!v.Bool()) })
		case v.CanInt():
			for _, n := range fieldInts {
				if !v.OverflowInt(n) {
					set(func(v reflect.Value) { v.SetInt(n) })
				}
			}
		case v.CanUint():
			for _, n := range fieldInts {
				if n >= 0 && !v.OverflowUint(uint64(n)) {
					set(func(v reflect.Value) { v.SetUint(uint64(n)) })
				}
			}
			for _, n := range fieldUints {
				if !v.OverflowUint(n) {
					set(func(v reflect.Value) { v.SetUint(n) })
				}
			}
		}
	}
}

// fieldRunes are the characters every text is tried with: all of ASCII, and others that programs treat as special.
var fieldRunes = func() []string {
	var out []string
	for c := 0; c < 128; c++ {
		out = append(out, string(rune(c)))
	}
	for _, c := range []rune{0x80, 0x85, 0xa0, 0xad, 0xc0, 0xdf, 0xff, 0x130, 0x131, 0x17f, 0x300, 0x410, 0x42f, 0x44f, 0x451, 0x142, 0x5d0, 0x1680, 0x180e, 0x1e9e,
		0x2000, 0x2003, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x202e, 0x202f, 0x205f, 0x2060, 0x212a, 0x3000, 0x4e2d, 0xd7ff, 0xe000, 0xfeff, 0xff1c, 0xfffd,
		0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
		out = append(out, string(c))
	}
	return append(out, "\xff", "\xc3", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80")
}()

// runeVariants calls f with the message that mk makes, after each of its texts was replaced by texts with each of the characters:
// alone, first, last and in the middle, or one of these by turns.
func runeVariants(mk func() reflect.Value, all bool, f func(path string, v reflect.Value)) {
	id := func(r reflect.Value) reflect.Value { return r }
	for li, l := range leaves(mk(), "", id) {
		if v := l.get(mk()); v.Kind() != reflect.String {
			continue
		}
		for ci, c := range fieldRunes {
			for k, s := range []string{"ab" + c, c + "ab", "a" + c + "b", c} {
				if !all && k != (li+ci+ci/4)%4 {
					continue
				}
				m := mk()
				v := l.get(m)
				if !v.CanSet() {
					break
				}
				v.SetString(s)
				f(l.path, m)
			}
		}
	}
}

// byteEdits changes one byte of a text: the other case of every letter, and at every place one of (deep: all of)
// leaving the byte out, doubling it, replacing it, inserting one before it.
func byteEdits(b string, k int, deep bool, other string, put func(string)) {
	for i := 0; i < len(b); i, k = i+1, k+1 {
		c, h, t := b[i], b[:i], b[i+1:]
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			put(h + string([]byte{c ^ 0x20}) + t)
		}
		if deep {
			put(h + t)
			put(h + b[i:i+1] + b[i:])
			for _, o := range []byte(other) {
				put(h + string([]byte{o}) + t)
				put(h + string([]byte{o}) + b[i:])
			}
			continue
		}
		o := other[k/4%len(other)]
		switch k % 4 {
		case 0:
			put(h + t)
		case 1:
			put(h + b[i:i+1] + b[i:])
		case 2:
			put(h + string([]byte{o}) + t)
		case 3:
			put(h + string([]byte{o}) + b[i:])
		}
	}
}
