package main

import (
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/tiger"
)

// adcCustom is a message with fields of kinds that the library's own messages do not use.
type adcCustom struct {
	A   string          `adc:"#"`
	N   adc.BoolInt     `adc:"#"`
	S   *string         `adc:"PS"`
	I   *int            `adc:"PI"`
	L   []int           `adc:"IL"`
	X   int             // not sent
	Y   string          `adc:"-"`
	Dir adc.Path        `adc:"DI"`
	On  adc.BoolInt     `adc:"ON"`
	T   tiger.Hash      `adc:"TH"`
	Fea adc.ExtFeatures `adc:"FE"`
	R   bool            `adc:"RQ,req"`
	H   int16           `adc:"JH"`
	W   int32           `adc:"JW"`
	Q   int64           `adc:"JQ"`
	UH  uint16          `adc:"KH"`
	UW  uint32          `adc:"KW"`
	UQ  uint64          `adc:"KQ"`
	U   uint            `adc:"KU"`
	PW  *uint32         `adc:"KP"`
	LW  []int16         `adc:"LH"`
}

func (adcCustom) Cmd() adc.MsgType { return adc.MsgType{'X', 'Y', 'Z'} }

// Plugin is a message that the user of the library registered.
type Plugin struct {
	A string `adc:"#"`
	B int    `adc:"BB"`
	C string `adc:"CC,req"`
}

func (Plugin) Cmd() adc.MsgType { return adc.MsgType{'P', 'L', 'G'} }

func init() {
	adc.RegisterMessage(&Plugin{})
	if call(func() { adc.RegisterMessage(Plugin{}) }) == "" {
		panic("registered twice")
	}
}

// everything that has a form of its own in the protocol
var adcNew = map[string]func() interface{}{
	"ChatMessage":       func() interface{} { return &adc.ChatMessage{} },
	"RevConnectRequest": func() interface{} { return &adc.RevConnectRequest{} },
	"ConnectRequest":    func() interface{} { return &adc.ConnectRequest{} },
	"GetInfoRequest":    func() interface{} { return &adc.GetInfoRequest{} },
	"GetRequest":        func() interface{} { return &adc.GetRequest{} },
	"GetResponse":       func() interface{} { return &adc.GetResponse{} },
	"SIDAssign":         func() interface{} { return &adc.SIDAssign{} },
	"UserCommand":       func() interface{} { return &adc.UserCommand{} },
	"GetPassword":       func() interface{} { return &adc.GetPassword{} },
	"Password":          func() interface{} { return &adc.Password{} },
	"Disconnect":        func() interface{} { return &adc.Disconnect{} },
	"SearchRequest":     func() interface{} { return &adc.SearchRequest{} },
	"SearchResult":      func() interface{} { return &adc.SearchResult{} },
	"UserInfo":          func() interface{} { return &adc.UserInfo{} },
	"HubInfo":           func() interface{} { return &adc.HubInfo{} },
	"UserInfoMod":       func() interface{} { return &adc.UserInfoMod{} },
	"Supported":         func() interface{} { return &adc.Supported{} },
	"Status":            func() interface{} { return &adc.Status{} },
	"ZOn":               func() interface{} { return &adc.ZOn{} },
	"ZOff":              func() interface{} { return &adc.ZOff{} },
	"Custom":            func() interface{} { return &adcCustom{} },
	"Plugin":            func() interface{} { return &Plugin{} },
	"Fields":            func() interface{} { return &adc.Fields{} },
	"String":            func() interface{} { return new(adc.String) },
	"Feature":           func() interface{} { return &adc.Feature{} },
	"ExtFeatures":       func() interface{} { return &adc.ExtFeatures{} },
	"Path":              func() interface{} { return &adc.Path{} },
	"BoolInt":           func() interface{} { return new(adc.BoolInt) },
	"SID":               func() interface{} { return &adc.SID{} },
	"TTH":               func() interface{} { return &adc.TTH{} },
	"ModFeatures":       func() interface{} { return &adc.ModFeatures{} },
	"AddFeatures":       func() interface{} { return &adc.AddFeatures{} },
}

var adcMessages = []string{
	"Plugin",
	"ChatMessage", "RevConnectRequest", "ConnectRequest", "GetInfoRequest", "GetRequest", "GetResponse", "SIDAssign", "UserCommand",
	"GetPassword", "Password", "Disconnect", "SearchRequest", "SearchResult", "UserInfo", "HubInfo", "UserInfoMod", "Supported",
	"Status", "ZOn", "ZOff", "Custom",
}
var adcValues = []string{"Fields", "String", "Feature", "ExtFeatures", "Path", "BoolInt", "SID", "TTH", "ModFeatures", "AddFeatures"}

var adcPieces = []string{
	"a", "b", "nick", "1", "0", "Я", "中", "é", " ", "\n", "\\", "\\s", "\\n", "\\\\", "s", "n", "/", ",", ".", "+", "-", "AD", "RM", "ID", "NI", "PM",
	"\t", "\r", ":", "|", "$", "<", "&", "TTH/", "+TCP4", "ZL1", "  ", " \\", "\\ ", "\\x",
}

const b32chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func (g *gen) adctext() string {
	var b strings.Builder
	n := pick(g.Rand, 0, 1, 1, 2, 3, 4, 6)
	if chance(g.Rand, 0.01) {
		n = 60
	}
	for i := 0; i < n; i++ {
		b.WriteString(g.one(adcPieces))
		if g.wild && chance(g.Rand, 0.05) {
			b.WriteString(g.one([]string{"\x00", "\xff", "\xed\xa0\x80", "\x7f"}))
		}
	}
	return b.String()
}

func (g *gen) b32(n int) string { return string(randBytes(g.Rand, n, b32chars)) }

var feaNames = []string{"BASE", "TIGR", "TCP4", "UDP4", "ADC0", "BLO0", "ZLIF", "NAT0"}

func (g *gen) feature() (f adc.Feature) {
	s := g.one(feaNames)
	if g.wild && chance(g.Rand, 0.2) {
		s = string(randBytes(g.Rand, 4, "ab,\\s \n+-\x00"))
	}
	copy(f[:], s)
	return
}

func (g *gen) i64() int64 {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return int64(g.Intn(100))
	case 2:
		return -int64(g.Intn(100))
	case 3:
		return math.MaxInt64
	case 4:
		return math.MinInt64
	case 5:
		return g.Int63() - g.Int63()
	case 6:
		return 1 << uint(g.Intn(63))
	}
	return int64(g.Intn(100000))
}

// adcFill sets a value to a random one.
func (g *gen) adcFill(v reflect.Value) {
	switch v.Interface().(type) {
	case adc.Feature:
		v.Set(reflect.ValueOf(g.feature()))
		return
	case adc.SID:
		s := g.b32(4)
		if chance(g.Rand, 0.1) {
			s = "\x00\x00\x00\x00"
		} else if g.wild && chance(g.Rand, 0.2) {
			s = string(randBytes(g.Rand, 4, "a \n\\s+-\x00"))
		}
		var id adc.SID
		copy(id[:], s)
		v.Set(reflect.ValueOf(id))
		return
	case adc.Path:
		p := make(adc.Path, pick(g.Rand, 0, 1, 1, 2, 3))
		for i := range p {
			p[i] = g.adctext()
			if !g.wild {
				p[i] = strings.Replace(p[i], "/", "_", -1)
			}
		}
		if len(p) == 0 && chance(g.Rand, 0.5) {
			p = nil
		}
		v.Set(reflect.ValueOf(p))
		return
	case adc.Status:
		st := adc.Status{Sev: adc.Severity(g.Intn(3)), Code: g.Intn(100), Msg: g.adctext()}
		if chance(g.Rand, 0.2) {
			st.Code = g.Intn(10)
		}
		if g.wild && chance(g.Rand, 0.2) {
			st.Code, st.Sev = g.Intn(2000), adc.Severity(g.Intn(2000))
		}
		v.Set(reflect.ValueOf(st))
		return
	case adc.Field:
		f := adc.Field{Value: g.adctext()}
		tag := g.one([]string{"NI", "ID", "SS", "a\\", "\\\\", "\\s", "s\\", "++", "I4"})
		if g.wild && chance(g.Rand, 0.1) {
			tag = g.one([]string{" a", "a ", "\n\n"})
		}
		copy(f.Tag[:], tag)
		v.Set(reflect.ValueOf(f))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(g.adctext())
	case reflect.Int, reflect.Int64:
		v.SetInt(g.i64())
	case reflect.Int16, reflect.Int32:
		max := int64(1)<<uint(v.Type().Bits()-1) - 1
		v.SetInt(int64(pick(g.Rand, 0, 1, -1, 300, int(max), int(-max-1), int(g.Int63n(max)))))
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.uint() >> uint(64-v.Type().Bits()))
	case reflect.Bool:
		v.SetBool(chance(g.Rand, 0.5))
	case reflect.Array:
		if chance(g.Rand, 0.1) {
			return // zero
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64(g.Intn(256)))
		}
	case reflect.Ptr:
		if chance(g.Rand, 0.6) {
			p := reflect.New(v.Type().Elem())
			g.adcFill(p.Elem())
			v.Set(p)
		}
	case reflect.Slice:
		n := pick(g.Rand, 0, 0, 1, 1, 2, 3)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(randBytes(g.Rand, pick(g.Rand, 0, 1, 2, 3, 4, 5, 6, 24, 32), ""))
			return
		}
		if n == 0 && chance(g.Rand, 0.5) {
			return // nil
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.adcFill(s.Index(i))
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for i := pick(g.Rand, 0, 1, 2, 3, 5); i > 0; i-- {
			k := reflect.New(v.Type().Key()).Elem()
			g.adcFill(k)
			m.SetMapIndex(k, reflect.ValueOf(chance(g.Rand, 0.6)))
		}
		if m.Len() == 0 && chance(g.Rand, 0.5) {
			return // nil
		}
		v.Set(m)
	case reflect.Struct:
		sparse := chance(g.Rand, 0.6)
		for i := 0; i < v.NumField(); i++ {
			if sparse && v.NumField() > 5 && chance(g.Rand, 0.7) {
				continue
			}
			if v.Type().Field(i).Type == reflect.TypeOf(adc.NoArgs{}) {
				continue
			}
			if tag := v.Type().Field(i).Tag.Get("adc"); v.Type() == reflect.TypeOf(adcCustom{}) && (tag == "" || tag == "-") {
				continue
			}
			g.adcFill(v.Field(i))
			if c, ok := v.Addr().Interface().(*adcCustom); ok {
				// an empty list that is not nil is sent
				if len(c.Dir) == 0 {
					c.Dir = nil
				}
				if len(c.Fea) == 0 {
					c.Fea = nil
				}
			}
		}
	default:
		panic("cannot fill " + v.Type().String())
	}
}

func (g *gen) adcValue(t string) interface{} {
	m := adcNew[t]()
	g.adcFill(reflect.ValueOf(m).Elem())
	return m
}

func (g *gen) adcMsg(types ...string) (string, adc.Message) {
	t := types[g.Intn(len(types))]
	return t, g.adcValue(t).(adc.Message)
}

var adcTags = []string{
	"PM", "ME", "TS", "TT", "CT", "RM", "CO", "SP", "MS", "ID", "TL", "RD", "TO", "AN", "NO", "EX", "LE", "GE", "EQ", "TY", "TR", "GR", "RX",
	"FN", "SI", "SL", "PD", "NI", "I4", "I6", "U4", "U6", "SS", "SF", "VE", "AP", "US", "DS", "FS", "AS", "EM", "DE", "HN", "HR", "HO",
	"AW", "RF", "SU", "KP", "EA", "AD", "ZL", "XX", "ZZ", "PS", "PI", "IL", "DI", "ON", "TH", "FE", "RQ", "HH", "UC", "JH", "JW", "JQ", "KH", "KW", "KQ", "KU", "KP", "LH",
}
var adcBadVals = []string{
	"", "0", "1", "2", "-1", "+5", "007", "1.0", "1e3", "1.5", "-2.50e1", "1e-1", "0x10", "0x1p4", "inf", "nan", "NaN", "-inf", "1_000", "true", "yes", " ",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e18", "1e19", "1e300", "1e99999", ".5", "5.", ".", "-", "+", "e5", "1e", "1e+2", "--1", "00", "01",
	"AAAA", "AAA", "AAAAA", "a\\sb", "\\", "\\q", "BASE", "BASE,TIGR", "BASE,", ",BASE", "BASE,,TIGR", "TIG", "a/b", "/", "//", "0.0", "-0", "-0.0", "10e-1", "1234567890123456789012",
	"32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "16777217.0", "32768.0", "1e5", "ZL1", "1ZL", "001", "140", "1400",
}

// adcMutate changes a parameter list.
func (g *gen) adcMutate(b []byte) []byte {
	ps := strings.Split(string(b), " ")
	for k := pick(g.Rand, 0, 1, 1, 2, 3); k > 0; k-- {
		i := g.Intn(len(ps))
		switch g.Intn(12) {
		case 0: // shuffle
			g.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		case 1: // shuffle all but the first ones
			if n := 1 + g.Intn(3); n < len(ps) {
				t := ps[n:]
				g.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
			}
		case 2: // repeat
			ps = append(ps, ps[i])
		case 3: // lose
			ps = append(append([]string{}, ps[:i]...), ps[i+1:]...)
			if len(ps) == 0 {
				ps = []string{""}
			}
		case 4, 5: // another parameter
			p := g.one(adcTags) + g.one(adcBadVals)
			if chance(g.Rand, 0.3) {
				p = g.one(adcTags) + g.b32(pick(g.Rand, 4, 4, 39, 39, 38, 40))
			}
			ps = append(append(append([]string{}, ps[:i]...), p), ps[i:]...)
		case 6: // another value
			if len(ps[i]) >= 2 {
				ps[i] = ps[i][:2] + g.one(adcBadVals)
			}
		case 7:
			ps[i] = g.one(adcBadVals)
		case 8: // a byte
			if p := []byte(ps[i]); len(p) != 0 {
				p[g.Intn(len(p))] = "Aa1 8=,\\/-+\x00\xff"[g.Intn(13)]
				ps[i] = string(p)
			}
		case 9:
			if p := ps[i]; len(p) != 0 {
				j := g.Intn(len(p))
				ps[i] = p[:j] + p[j+1:]
			}
		case 10:
			ps[i] += g.one([]string{"A", "\\", "s", "0", ",", "/"})
		case 11:
			ps = append(append(append([]string{}, ps[:i]...), ""), ps[i:]...)
		}
	}
	return []byte(strings.Join(ps, " "))
}

var _ = strconv.Itoa
