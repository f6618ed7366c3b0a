package main

import (
	"errors"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
)

// xVerif is a message that the user of the library registered.
type xVerif struct{ nmdc.String }

func (*xVerif) Type() string { return "XVerif" }

func init() {
	nmdc.RegisterMessage(&xVerif{})
	if call(func() { nmdc.RegisterMessage(&xVerif{}) }) == "" {
		panic("registered twice")
	}
}

var nmdcTypes = []string{
	"GetTopic", "BadPass", "GetPass", "HubIsFull", "ZOn", "GetNickList", "MaxedOut",
	"Hello", "Kick", "Close", "ValidateNick", "ValidateDenide", "MyNick", "Quit", "LogedIn",
	"HubName", "SetTopic", "MyPass", "BotINFO", "SetIcon", "SetLogo", "XVerif",
	"OpList", "BotList", "Failed", "Error",
	"Chat", "To:", "MCTo", "UserCommand", "ForceMove", "Version", "Key", "HubTopic", "FailOver",
	"ConnectToMe", "RevConnectToMe", "ADCGET", "ADCSND", "Direction", "HubINFO", "Lock", "Search", "SR",
	"SA", "SP", "Supports", "UserIP", "MyINFO", "Raw",
}

// types with interesting grammars
var nmdcRich = []string{
	"Chat", "Chat", "To:", "MCTo", "UserCommand", "ConnectToMe", "ADCGET", "ADCSND", "HubINFO", "Lock", "Search", "Search",
	"SR", "SR", "SR", "SA", "SP", "UserIP", "MyINFO", "MyINFO", "MyINFO", "MyINFO", "OpList", "Supports", "RevConnectToMe",
}

// gen makes random values of protocol fields.
type gen struct {
	*rand.Rand
	cs    string
	wild  bool // anything goes, including what cannot be represented
	plain bool // short and simple
}

var natRunes = map[string][]rune{
	"utf8":   []rune("abЖяßéłż中文乗億😀 €"),
	"cp1251": []rune("абвЖяЁёђЏ№€«»"),
	"cp1250": []rune("ąęłżźćńßéö€đŰ"),
	"koi8-r": []rune("абвЖяЁё─║÷√"),
	"strict": []rune("abcdefghijklmnoж"),
	"gbk":    []rune("中文网络用户你好世界亅倈剕乗俓剉乣俙刞"),
}

var textPieces = []string{
	"a", "b", "nick", "Hello", "1", "0", "7/5", " ", " ", "  ", ".", ",", ":", ";", "?", "/", "-", "_", "(", ")", " (", "[x]",
	"\"", "'", "`", "~", "=", "#", "%", "@", "\x05", "S", "N", "R",
}
var textHard = []string{
	"$", "|", "&", "<", ">", "&amp;", "&lt;", "&gt;", "&#36;", "&#124;", "&#", "&&", "$$", "||", "&amp;amp;", "&quot;",
	"> ", "<x> ", "\\", "\n", "\r\n", "\t", "From: ", " From: ", " $<", "TTH:", " V:", "&#x24;", "&a", "&copy;", "&#36",
}

func (g *gen) one(a []string) string { return a[g.Intn(len(a))] }

func (g *gen) natural(n int) string {
	r := natRunes[g.cs]
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(r[g.Intn(len(r))])
	}
	return b.String()
}

// text is any text, ban are byte strings that must not occur.
func (g *gen) text(ban ...string) string {
retry:
	for {
		var b strings.Builder
		n := pick(g.Rand, 0, 1, 1, 2, 2, 3, 4, 6)
		if chance(g.Rand, 0.02) {
			n = 40
		}
		for i := 0; i < n; i++ {
			switch {
			case g.plain || chance(g.Rand, 0.4):
				b.WriteString(g.one(textPieces))
			case chance(g.Rand, 0.6):
				b.WriteString(g.one(textHard))
			default:
				b.WriteString(g.natural(1 + g.Intn(3)))
			}
		}
		if g.wild && chance(g.Rand, 0.1) {
			b.WriteString(g.one([]string{"\x00", "😀", "\xff", "\xc3", "ж", "ł", "中", "/%DCN036%/", "/%DCN000%/", "\xed\xa0\x80"}))
		}
		s := b.String()
		for _, x := range ban {
			if strings.Contains(s, x) {
				continue retry
			}
		}
		return s
	}
}

func (g *gen) name(ban ...string) string {
	if g.wild && chance(g.Rand, 0.1) {
		return g.text()
	}
	s := g.text(append([]string{"$", "\r", "\n", "\t"}, ban...)...)
	if s == "" && chance(g.Rand, 0.8) {
		s = "nick" + strconv.Itoa(g.Intn(10))
	}
	if chance(g.Rand, 0.01) {
		s = strings.Repeat("n", pick(g.Rand, 250, 255, 256, 257)) + g.one([]string{"", "<", "&"})
	}
	return s
}

// raw is a field sent as it is.
func (g *gen) raw(ban ...string) string {
	if g.plain || chance(g.Rand, 0.5) {
		return g.one([]string{"1.2.3.4:412", "[::1]:413", "hub.example.org", "x", "0.868", "a-b", "adcs://h:1", ""})
	}
	return g.text(append([]string{"$", "|", "\x00"}, ban...)...)
}

func (g *gen) uint() uint64 {
	switch g.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint64(g.Intn(20))
	case 2:
		return math.MaxUint64 - uint64(g.Intn(3))
	case 3:
		return 1 << uint(g.Intn(64))
	case 4:
		return math.MaxInt64 + uint64(g.Intn(2))
	}
	return g.Uint64() >> uint(g.Intn(64))
}

func (g *gen) int() int {
	if g.wild && chance(g.Rand, 0.2) {
		return -int(g.uint() >> 1)
	}
	return int(g.uint() >> 1)
}

func (g *gen) small() int { return pick(g.Rand, 0, 1, 2, 5, 10, 255, 65535, 1<<31-1) }

func (g *gen) tth() *nmdc.TTH {
	h := new(nmdc.TTH)
	switch g.Intn(4) {
	case 0:
	case 1:
		for i := range h {
			h[i] = 255
		}
	default:
		g.Read(h[:])
	}
	return h
}

func (g *gen) list(max int, f func() string) []string {
	n := g.Intn(max + 1)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, f())
	}
	return out
}

func nonEmpty(f func() string) func() string {
	return func() string {
		for i := 0; i < 20; i++ {
			if s := f(); s != "" {
				return s
			}
		}
		return "x"
	}
}

func (g *gen) msg(t string) nmdc.Message {
	m := newNmdc(t)
	switch m := m.(type) {
	case *nmdc.Hello:
		m.Name = nmdc.Name(g.name())
	case *nmdc.Kick:
		m.Name = nmdc.Name(g.name())
	case *nmdc.Close:
		m.Name = nmdc.Name(g.name())
	case *nmdc.ValidateNick:
		m.Name = nmdc.Name(g.name())
	case *nmdc.ValidateDenide:
		m.Name = nmdc.Name(g.name())
	case *nmdc.MyNick:
		m.Name = nmdc.Name(g.name())
	case *nmdc.Quit:
		m.Name = nmdc.Name(g.name())
	case *nmdc.LogedIn:
		m.Name = nmdc.Name(g.name())
	case *nmdc.HubName:
		m.String = nmdc.String(g.text())
	case *nmdc.SetTopic:
		m.String = nmdc.String(g.text())
	case *nmdc.MyPass:
		m.String = nmdc.String(g.text())
	case *nmdc.BotINFO:
		m.String = nmdc.String(g.text())
	case *nmdc.SetIcon:
		m.String = nmdc.String(g.text())
	case *nmdc.SetLogo:
		m.String = nmdc.String(g.text())
	case *xVerif:
		m.String = nmdc.String(g.text())
	case *nmdc.OpList:
		m.Names = g.list(4, func() string { return g.name() })
	case *nmdc.BotList:
		m.Names = g.list(4, func() string { return g.name() })
	case *nmdc.Failed:
		if chance(g.Rand, 0.9) {
			m.Err = errors.New(g.text())
		}
	case *nmdc.Error:
		if chance(g.Rand, 0.9) {
			m.Err = errors.New(g.text())
		}
	case *nmdc.ChatMessage:
		if chance(g.Rand, 0.7) {
			m.Name = g.name()
		}
		m.Text = g.text()
		if m.Name == "" && !g.wild {
			m.Text = "x" + m.Text
		}
	case *nmdc.PrivateMessage:
		m.To, m.From, m.Name, m.Text = g.name(" From:"), g.name(), g.name(), g.text()
		if chance(g.Rand, 0.5) {
			m.Name = m.From
		}
	case *nmdc.MCTo:
		m.To, m.From, m.Text = g.name(), g.name(" "), g.text()
	case *nmdc.UserCommand:
		m.Typ = nmdc.UCmdType(pick(g.Rand, 0, 1, 2, 255, g.small()))
		m.Context = nmdc.UCmdContext(pick(g.Rand, 0, 1, 2, 15, g.small()))
		if g.wild || chance(g.Rand, 0.8) {
			m.Path = g.list(3, nonEmpty(func() string { return strings.TrimSpace(g.text("\\")) }))
			if len(m.Path) != 0 || g.wild {
				m.Command = nonEmpty(func() string { return strings.TrimSpace(g.text()) })()
			}
		}
	case *nmdc.ForceMove:
		m.Address = g.raw()
	case *nmdc.Version:
		m.Vers = g.raw()
	case *nmdc.Key:
		m.Key = g.raw()
		if chance(g.Rand, 0.5) {
			m.Key = string(randBytes(g.Rand, g.Intn(20), ""))
			m.Key = strings.NewReplacer("\x00", "", "|", "").Replace(m.Key)
		}
	case *nmdc.HubTopic:
		m.Text = g.text()
	case *nmdc.FailOver:
		m.Host = g.list(3, func() string { return g.raw(",") })
	case *nmdc.ConnectToMe:
		m.Targ = nonEmpty(func() string { return g.name(" ") })()
		m.Address = g.one([]string{"1.2.3.4:412", "h:1", "[::]:65535", "12"})
		if g.wild {
			m.Address = g.raw(" ")
		}
		m.Kind = nmdc.CTMKind(g.Intn(3))
		if g.wild && chance(g.Rand, 0.1) {
			m.Kind = nmdc.CTMKind(g.Intn(5) - 1)
		}
		m.Secure = chance(g.Rand, 0.5)
		if m.Kind == nmdc.CTMPassiveReq || g.wild && chance(g.Rand, 0.1) {
			m.Src = nonEmpty(func() string { return g.name() })()
		}
	case *nmdc.RevConnectToMe:
		m.From, m.To = g.name(" "), g.name()
	case *nmdc.ADCGet:
		m.ContentType, m.Identifier = nmdc.String(g.text(" ")), nmdc.String(g.text(" "))
		m.Start = g.uint()
		m.Length = int64(g.uint() >> 1)
		if chance(g.Rand, 0.3) {
			m.Length = -1
		}
		if g.wild && chance(g.Rand, 0.1) {
			m.Length = -int64(g.uint() >> 1)
		}
		m.Compressed = chance(g.Rand, 0.5)
		if chance(g.Rand, 0.5) {
			n := g.uint()
			m.DownloadedBytes = &n
		}
	case *nmdc.ADCSnd:
		m.ContentType, m.Identifier = nmdc.String(g.text(" ")), nmdc.String(g.text(" "))
		m.Start, m.Length = g.uint(), g.uint()
		m.Compressed = chance(g.Rand, 0.5)
	case *nmdc.Direction:
		m.Upload = chance(g.Rand, 0.5)
		m.Number = uint(pick(g.Rand, 1, 2, 1000, 32766, 32767))
		if g.wild {
			m.Number = uint(pick(g.Rand, 0, 1, 32767, 32768, 99999))
		}
	case *nmdc.HubINFO:
		m.Name, m.Desc, m.Owner, m.State = g.text(), g.text(), g.text(), g.text()
		m.Host, m.Encoding = g.raw(), g.raw()
		m.I1, m.I2, m.I3, m.I4 = g.int(), g.int(), g.small(), -g.small()
		m.Soft = types.Software{Name: g.raw(" "), Version: g.raw(" ")}
		if m.Soft.Version != "" {
			m.Soft.Name = g.raw()
		}
	case *nmdc.Lock:
		m.NoExt = chance(g.Rand, 0.3)
		m.Lock = g.raw(" ", "EXTENDED")
		m.PK = g.raw("Ref=")
		if chance(g.Rand, 0.3) {
			m.PK = ""
		}
		if chance(g.Rand, 0.5) {
			m.Ref = g.raw()
		}
	case *nmdc.Search:
		if chance(g.Rand, 0.5) {
			m.Address = g.raw(" ", "Hub:")
		}
		if m.Address == "" {
			m.User = g.name(" ")
		}
		m.SizeRestricted = chance(g.Rand, 0.5)
		m.IsMaxSize = !m.SizeRestricted || chance(g.Rand, 0.5)
		m.Size = g.uint()
		m.DataType = nmdc.DataType(g.Intn(14))
		if m.DataType == nmdc.DataTypeTTH || chance(g.Rand, 0.3) {
			m.DataType = nmdc.DataTypeTTH
			m.TTH = g.tth()
			if g.wild && chance(g.Rand, 0.1) {
				m.TTH = nil
			}
		} else {
			m.Pattern = g.text()
		}
	case *nmdc.SR:
		m.From = g.name(" ")
		m.Path = append(g.list(2, func() string { return g.text("\\", "\x05") }), g.text("\\", "\x05"))
		m.IsDir = chance(g.Rand, 0.5)
		if !m.IsDir {
			m.Path[len(m.Path)-1] += g.one([]string{".mp3", "x", "5", "/x", ""})
			m.Size = g.uint()
		}
		m.FreeSlots, m.TotalSlots = g.small(), g.int()
		if chance(g.Rand, 0.5) {
			m.TTH = g.tth()
		} else {
			m.HubName = g.text(" (", "TTH:")
		}
		m.HubAddress = g.raw(")")
		if chance(g.Rand, 0.5) {
			m.To = g.name()
		}
		if g.wild && chance(g.Rand, 0.1) {
			m.Path = g.list(2, func() string { return g.text() })
		}
	case *nmdc.TTHSearchActive:
		m.TTH = *g.tth()
		m.Address = g.raw()
	case *nmdc.TTHSearchPassive:
		m.TTH = *g.tth()
		m.User = g.name()
	case *nmdc.Supports:
		m.Ext = g.list(4, nonEmpty(func() string { return g.raw(" ") }))
	case *nmdc.UserIP:
		for i := g.Intn(4); i > 0; i-- {
			m.List = append(m.List, nmdc.UserAddress{Name: g.name(), IP: g.raw(" ")})
		}
	case *nmdc.MyINFO:
		m.Name, m.Desc = g.name(" "), g.text()
		m.Client = types.Software{Name: g.raw("<", ">", " V:"), Version: g.raw("<", ">", ",")}
		m.Mode = nmdc.UserMode(pick(g.Rand, 0, 'A', 'P', '5', 'x'))
		m.HubsNormal, m.HubsRegistered, m.HubsOperator, m.Slots = g.small(), g.int(), g.small(), g.int()
		for i := g.Intn(4); i > 0; i-- {
			if m.Extra == nil {
				m.Extra = map[string]string{}
			}
			m.Extra[g.one([]string{"O", "F", "B", "L", "Q", "9", "xx", "Vx", "OO"})] = g.raw("<", ">", ",")
		}
		m.Conn = g.text()
		m.Flag = nmdc.UserFlag(pick(g.Rand, 0, 1, 2, 0x31, 0x40, 0xff, 0x26, 0x20))
		m.Email = g.text()
		m.ShareSize = g.uint()
	case *nmdc.RawMessage:
		m.Typ = g.one([]string{"Foo", "X", "NickChange", "IN", "a/b-c_d.e:", "To", "hello", strings.Repeat("C", 32)})
		m.Data = []byte(g.raw())
	}
	return m
}

// variants other clients send
var nmdcBodies = map[string][]string{
	"Chat": {"<nick> text", "text", "<nick>text", "<n> ", "<n>", "<", "<n", "< > x", "<a>b> c", "<a>\tx", "<a>\u00a0x", "<a\n> x", "<a>x\n> y",
		"<a>x>", "<a>x>y", "<>x", "<> x", " <a> x", "<a>\u3000x", "<a>\x85x", "<a>", "<a> <b> c", "<a>b c", "<<a> x", "<a\r> b", "<a>\nx", "<a>\u2003"},
	"To:":         {"a From: b $<c> text", "a From: b $<c> ", "a From: b $<c>", "a From: b", "a From:b $<c> x", " From:  $<> ", "a From: b $<c>> x", "a From: b $<c> d> e", "a b From: c $<d> e From: f"},
	"MCTo":        {"a $b text", "a $b ", "a $b", "a b", "a $b $c d", " $ ", "$b c"},
	"UserCommand": {"0 3", "1 3 path$cmd", "1 3 # Ledokol Menu\\.:: Ranks\\All VIPs$<%[mynick]> +vips&#124;", "255 1", "1 3", "1  3 x$y", "1 3 $x", "1 3 x", "1", "", "x 3 a$b", "1 3;5 a$b", "1 x a$b", "1 3 a\\\\b$c", " 1 3 a $b ", "1 3  a$ b", "+1 3 a$b", "-1 3 a$b", "1 3 a$b$c", "1 3 \\$x", "99999999999999999999 1 a$b"},
	"ConnectToMe": {"peer 1.2.3.4:5", "peer 1.2.3.4:5S", "peer 1.2.3.4:5N me", "peer 1.2.3.4:5NS me", "peer 1.2.3.4:5R", "peer 1.2.3.4:5RS", "peer", "peer ", " 1.2.3.4", "peer 1.2.3.4:5RS me", "peer S", "peer N", "peer NS x y", "a 1SS", "a 1SN b", "a 1RN"},
	"ADCGET": {"file TTH/XXX 0 -1", "file files.xml.bz2 0 -1 ZL1", "tthl TTH/A 0 10 DB5", "list / 1 2 ZL1 DB33", "file a 0 1 DB1 ZL1", "file a 0 1 XX", "file a 0 1  ZL1", "file a 0 1 DB", "file a 0 1 DBx",
		"file a 0", "file a", "file", "file a x 1", "file a 0 x", "file a 0 -2", "file a 18446744073709551615 9223372036854775807", "file a 18446744073709551616 1", "file a 0 9223372036854775808", "file a  1", "file  0 1", "file a 0 1 DB1 DB2", "file a 0 1 ZL2", "file a 0 01", "file a 00 1", "file &#36; 0 1"},
	"ADCSND":    {"file a 0 10", "file a 0 10 ZL1", "file a 0 10 ZL2", "file a 0 10 ", "file a 0 10  ZL1", "file a 0 -1", "file a 0", "file a 0 x", "file a 0 18446744073709551615", "file a 0 18446744073709551616"},
	"Direction": {"Download 1", "Upload 32767", "Upload 0", "Upload 32768", "Sideload 5", "Upload", "Upload x", "Upload  7 ", "download 5", "Upload 5 5", "Upload -1"},
	"HubINFO": {"hub$host$desc$500$0$0$0$soft 1.0$owner$state$cp1251", "hub$host$desc$500$0$0$0$soft$owner$state", "hub$host$desc$500$0$0$0$soft", "hub", "", "hub$host$desc$500$0$0$0$a b c$o$s$e$f",
		"hub$host$desc$500$0$0$0$a b$o$s$e$f$g$h$i", "hub$host$desc$x$0$0$0", "hub$host$desc$$0$0$0", "hub$host$desc$5 $ 1$-1$+1$s$o$$", "a$b$c$0$0$0$9223372036854775808"},
	"Lock": {"EXTENDEDPROTOCOLabcd Pk=versionRef=1.2.3.4", "lock", "EXTENDEDPROTOCOL", "abc Pk=x", "abc Ref=x", "abc Pk=Ref=", "abc x", "abc  Pk=x", "abc Pk=aRef=bRef=c", " Pk=x", "EXTENDEDPROTOCOLEXTENDEDPROTOCOL Pk=y", "", "abc pk=x"},
	"Search": {"Hub:nick F?T?0?1?pattern", "1.2.3.4:412 T?F?100?1?a$b$c", "1.2.3.4:412 T?T?100?9?TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "Hub:n F?T?0?9?TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ$", "x T?F?-1?1?a", "x T?F?-?1?a", "x T?F?-x?1?a", "x F?F??1?a", "x F?F?0?1", "x F?F?0?1?", "x T?F?0?1?a?b?c", "x Y?F?0?1?a", "x T??0?1?a", "x TT?F?0?1?a", "x T?F?0?x?a", "x T?F?0??a", "x",
		"", "Hub: F?T?0?1?a", "Hub:n F?T?0?9?LWPN", "Hub:n F?T?0?9?TTH:LWPN", "Hub:n F?T?0?09?TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "x F?T?0?1?&#36;a$&amp;b", "x T?F?5?18446744073709551616?a", "Hub:a$b F?T?0?1?c", "x F?T?0?1?a b", "x T?T?-99999999999999999999?1?a", "x F?T?0?9?TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQA", "x F?T?0?9?tth:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "hub:n F?T?0?1?p"},
	"SR": {"nick dir\\file.mp3\x05437\x053/4\x05Hub (1.2.3.4:412)\x05me", "nick f.mp3\x05437 3/4\x05Hub (1.2.3.4:412)\x05me", "nick f.mp3\x05437 3/4\x05Hub (1.2.3.4:412)", "nick some dir 0/3\x05TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ (h:1)\x05me",
		"nick a/1\x050 3/4\x05TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ (h)", "nick dir 1/2\x05Hub (x)", "nick dir 1/2\x05 (x)", "nick dir 1/2\x05(x)", "nick dir 1/2\x05Hub (x", "nick dir 1/2\x05Hub (x)y", "nick dir 1/2\x05Hub (x)\x05", "nick 1/2\x05Hub (x)", "nick  1/2\x05Hub (x)", "nick f\x05x 1/2\x05H (x)", "nick f\x051 1\x05H (x)", "nick f\x051 1/\x05H (x)", "nick f\x051 /1\x05H (x)", "nick f\x051\x05H (x)", "nick f\x051 2/3", "nick f", "nick", "", "nick a\\b\\\\c\\ 1/2\x05H (x)", "nick \\ 1/2\x05H (x)",
		"nick f\x051 2/3\x05TTH:LWPN (x)", "nick f\x051 2/3\x05TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ(x)", "nick f\x051 2/3\x05TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "nick f\x051 2/3\x05Hub (a) (b)", "nick f\x051 2/3\x05Hub  (b)\x05m e", "nick &#36;/2\x051 2/3\x05H (x)", "nick dir -1/2\x05H (x)", "nick dir 1/2/3\x05H (x)", "nick f\x051 -2/3\x05H (x)", "nick f\x0518446744073709551615 2/3\x05H (x)", "nick f\x0518446744073709551616 2/3\x05H (x)"},
	"SA":       {"LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ 1.2.3.4:5", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN1 x", "lWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ x", "LWPN x", "", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQQ x"},
	"SP":       {"LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ nick", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ a b", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ a$b"},
	"Supports": {"A B C", " A  B ", "", " ", "A", "A$B", "\tA"},
	"UserIP":   {"a 1.1.1.1$$b 2.2.2.2$$", "a 1.1.1.1", "a b 1.1.1.1$$", "a$$", "", "$$", "a 1.1.1.1$$\r", "a 1$$$$b 2$$", "a 1.1.1.1$$b", "a 1$b 2"},
	"OpList":   {"a$$b$$", "a$$b", "", "$$", "$$$$", "a$b$$", "a$$$$b", "a$$$"},
	"BotList":  {"a$$b$$", "a$$b", "a"},
	"FailOver": {"a,b,c", "a", "", ",", "a,,b", "a b"},
	"MyINFO": {"$ALL nick desc<++ V:0.777,M:A,H:1/2/3,S:4>$ $100\x01$e@mail$1234$", "$ALL nick <++ v:0.777,m:P,h:1/2/3,s:4>$ $100\x01$$1234$", "$ALL nick desc$A$100\x01$e$1$", "$ALL nick desc$P$100\x01$e$1$", "$ALL nick desc$ $100\x01$e$1$",
		"$ALL nick desc<cl,M:A>$ $1\x01$e$1$", "$ALL nick desc<cl>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,H:5>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,H:>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,H:1/2>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,H:1/x/2>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,M:,S:-1>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,M:AB>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,M: >$ $1\x01$e$1$",
		"$ALL nick desc<cl V:1,S:x>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,S: 5 >$ $1\x01$e$1$", "$ALL nick desc<cl V:1,O:1,F:2/3,B:x>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,XX:1>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,,S:1>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,foo>$ $1\x01$e$1$", "$ALL nick desc<cl V:1,:foo>$ $1\x01$e$1$", "$ALL nick desc<cl V:1$ $1\x01$e$1$", "$ALL nick desc<>$ $1\x01$e$1$", "$ALL nick desc<$ $1\x01$e$1$", "$ALL nick a<b>c$ $1\x01$e$1$", "$ALL nick <a><cl V:2>$ $1\x01$e$1$",
		"$ALL nick desc<cl V:1>$ $\x01$e$1$", "$ALL nick desc<cl V:1>$ $$e$1$", "$ALL nick desc<cl V:1>$ $1\x01$$$", "$ALL nick desc<cl V:1>$$1\x01$e$1$", "$ALL nick desc<cl V:1>$AB$1\x01$e$1$", "$ALL nick desc<cl V:1>$ $1\x01$e$1", "$ALL nick desc<cl V:1>$ $1\x01$e$1$$", "$ALL nick", "$ALL nick ", "$ALL  d$ $1\x01$e$1$", "nick d$ $1\x01$e$1$", "$all nick d$ $1\x01$e$1$", "$ALL nick d$ $1\x01$e$99999999999999999999$", "$ALL nick d$ $1\x01$e$ 5 $", "$ALL nick d<a b V:1 V:2,v:3>$ $1\x01$e$1$", "$ALL nick d<V:1,M:A>$ $1\x01$e$1$", "$ALL nick d<a,V:1>$ $1\x01$e$1$", "$ALL nick d<M:A>$ $1\x01$e$1$", "$ALL nick d<cl V:1,o:1,O:2>$ $1\x01$e$1$", "$ALL nick d<cl V:1>>$ $1\x01$e$1$", "$ALL nick d<cl V:1,M:A> $ $1\x01$e$1$", "$ALL nick d<cl V:1,H:1/2/3/4>$ $1\x01$e$1$", "$ALL nick d<cl V:1,H:1>$A$1\x01$e$1$",
		"$ALL nick &amp;&#36;<cl V:1>$ $&lt;\x11$&gt;$1$"},
	"Hello":          {"nick", "", "a b", "a$b", "a\nb", "&lt;a&gt;", "a&#124;b", "/%DCN124%/", "a&amp;lt;"},
	"HubName":        {"name", "", "a$b", "a - topic", "&#36;&#124;&amp;", "/%DCN036%//%DCN124%/", "/%DCN", "/%DCN999%/", "/%DCN/%DCN036%/", "a\nb", "&quot;x&quot;", "&#x41;", "&amp;#36;", "& b", "&"},
	"GetTopic":       {"", "x", " "},
	"ZOn":            {"", "x"},
	"Failed":         {"", "err", "a&#124;b"},
	"Error":          {"", "err"},
	"RevConnectToMe": {"a b", "a", "a ", " b", "a b c"},
	"Key":            {"", "abc", "a b", "\xff\x80"},
	"Version":        {"1,0091", ""},
	"ForceMove":      {"h:1", ""},
	"HubTopic":       {"topic", ""},
}

const structural = " $|?/\\:<>(),-+0159STFNRHVMA\x05\r\n&;\t."

// mutate makes a body that is close to a valid one.
func (g *gen) mutate(b []byte) []byte {
	b = cp(b)
	for i := 1 + g.Intn(2); i > 0; i-- {
		n := len(b)
		switch g.Intn(8) {
		case 0:
			if n > 0 {
				j := g.Intn(n)
				b = append(b[:j], b[j+1:]...)
			}
		case 1, 2:
			j := g.Intn(n + 1)
			b = append(b[:j], append([]byte{structural[g.Intn(len(structural))]}, b[j:]...)...)
		case 3:
			if n > 0 {
				b[g.Intn(n)] = structural[g.Intn(len(structural))]
			}
		case 4:
			b = b[:g.Intn(n+1)]
		case 5:
			if n > 1 { // repeat a part
				j := g.Intn(n)
				k := j + 1 + g.Intn(n-j)
				b = append(b[:k:k], b[j:]...)
			}
		case 6:
			// change something next to a structural character
			var at []int
			for j, c := range b {
				if strings.IndexByte(" $?/\\:,\x05<>()", c) >= 0 {
					at = append(at, j)
				}
			}
			if len(at) != 0 {
				j := at[g.Intn(len(at))]
				if chance(g.Rand, 0.5) {
					b = append(b[:j], b[j+1:]...)
				} else {
					b = append(b[:j:j], append([]byte{b[j]}, b[j:]...)...)
				}
			}
		case 7:
			j := g.Intn(n + 1)
			ins := g.one([]string{"-1", "99999999999999999999", "&amp;", "&#36;", "/%DCN036%/", "TTH:", " (", "> ", "$$", " From: ", " V:", "Hub:", "ZL1", "DB7", g.natural(1)})
			b = append(b[:j:j], append([]byte(ins), b[j:]...)...)
		}
	}
	return b
}

// tokens of the grammars, for bodies made of any sequence of them
var nmdcTokens = map[string][]string{
	"Chat":           {"<", ">", " ", "a", "\n", "\u00a0"},
	"To:":            {"a", " From: ", " $<", "> ", ">", "$", " "},
	"MCTo":           {"a", " ", "$", " $", "&#36;"},
	"UserCommand":    {"1", " ", "a", "$", "\\", "\t"},
	"ConnectToMe":    {"a", " ", "S", "N", "R", "1"},
	"RevConnectToMe": {"a", " ", "$"},
	"ADCGET":         {"a ", " ", "1", "-1", " ZL1", " DB", "x"},
	"ADCSND":         {"a ", " ", "1", "-1", " ZL1", "x"},
	"Direction":      {"Upload", "Download", " ", "1", "x"},
	"HubINFO":        {"a", "$", " ", "1", "x"},
	"Lock":           {"EXTENDEDPROTOCOL", "a", " ", "Pk=", "Ref="},
	"Search":         {"Hub:", "a", " ", "T?", "F?", "?", "1?", "9?", "-", "$", "TTH:"},
	"SR":             {"a", " ", "\x05", "1", "/", " (", ")", "\\"},
	"UserIP":         {"a", " ", "$$", "$", "\r"},
	"OpList":         {"a", "$$", "$", " "},
	"BotList":        {"a", "$$", "$"},
	"FailOver":       {"a", ",", " "},
	"Supports":       {"a", " ", "\t"},
	"HubName":        {"&", "amp;", "lt;", "#36;", "#x7c;", "/%DCN", "036%/", "124%/", "/", "a", ";", " "},
	"Hello":          {"&", "amp;", "lt;", "#36;", "/%DCN036%/", "a", ";", "$", "\n", " "},
	"MyINFO":         {"c", " V:", ",", "H:", "1", "/", ">", "<", "M:", "A", "S:", "O:", "$", " "},
}

// nmdcSlots lists the parts of a body: first what is usual, then what else may stand there.
var nmdcSlots = map[string][][]string{
	"Chat":           {{"<", "", "<<", " <"}, {"nick", "", "a b", "a$b", "&lt;", "a>b", "a\tb"}, {">", "", ">>"}, {" ", "", "  ", "\t", "\n", "\u00a0"}, {"text", "", "<b> c", "a&#124;b", "&amp;lt;", "x\ny"}},
	"To:":            {{"to", "", "a b", "&lt;", "a$"}, {" From: ", " From:", "From: ", " from: ", "  From: "}, {"from", "", "a b", "&gt;"}, {" $<", " $", "$<", " <", "  $<"}, {"nick", "", "a b", "a>"}, {"> ", ">", " ", ">  "}, {"text", "", "> x", " From: a $<b> c", "&#36;"}},
	"MCTo":           {{"to", "", "a b", "&lt;"}, {" ", "", "  "}, {"$", "", "$$"}, {"from", "", "&gt;", "a$"}, {" ", "", "  "}, {"text", "", "a $b c", "&#36;"}},
	"UserCommand":    {{"1", "0", "2", "255", "-1", "", "x", "+1", "01"}, {" ", "", "  "}, {"3", "0", "9", "15", "", "x", "3;5", "3x4", "-1"}, {" ", "", "  "}, {"dir", "", "a\\b", "\\", "a\\", "\\a", "&#92;", " a ", "a\\\\b", "&#36;"}, {"$", "", "$$", " $ "}, {"cmd", "", "a$b", "<%[nick]> x&#124;", " c ", "&#36;"}},
	"ConnectToMe":    {{"peer", "", "a$b", "&lt;"}, {" ", "", "  "}, {"1.2.3.4:5", "", "h", "[::1]:5", "S", "R", "N"}, {"", "N", "R", "S", "X"}, {"", "S", "N", "R"}, {"", " me", " ", " a b", "  me"}},
	"RevConnectToMe": {{"a", "", "a$b", "&lt;"}, {" ", "", "  "}, {"b", "", "b c", "&gt;", "b$"}},
	"ADCGET":         {{"file", "", "list", "&#36;"}, {" ", "", "  "}, {"TTH/A", "", "/", "a&#36;b", "files.xml.bz2", "a\\ b"}, {" ", ""}, {"0", "5", "", "-1", "x", "18446744073709551615", "18446744073709551616"}, {" ", ""}, {"-1", "0", "9", "", "-2", "x", "9223372036854775807", "9223372036854775808"}, {"", " ZL1", " ZL2", " ", " XX", " zl1"}, {"", " DB5", " DB", " DBx", " DB-1", " ZL1", " db5"}},
	"ADCSND":         {{"file", "", "list", "&#36;"}, {" ", "", "  "}, {"TTH/A", "", "/", "a&#36;b"}, {" ", ""}, {"0", "5", "", "-1", "x", "18446744073709551615", "18446744073709551616"}, {" ", ""}, {"7", "0", "", "-1", "x", "18446744073709551615"}, {"", " ZL1", " ZL2", " ", " zl1", " ZL1 x"}},
	"Direction":      {{"Download", "Upload", "", "x", "download"}, {" ", "", "  "}, {"1", "0", "32767", "32768", "", "x", "-1", "+5", " 5", "5 ", "9223372036854775808"}},
	"HubINFO":        {{"hub", "", "a&#36;"}, {"$", ""}, {"host", "", "h:1"}, {"$", ""}, {"desc", "", "&lt;"}, {"$", ""}, {"1", "", "x", "-1", "+1", " 1"}, {"$", ""}, {"2", "", "x", "-1"}, {"$", ""}, {"3", "", "x"}, {"$", ""}, {"4", "", "x"}, {"$", ""}, {"soft 1.0", "", "soft", "a b c", " 1", "s "}, {"$", ""}, {"owner", "", "&gt;"}, {"$", ""}, {"state", ""}, {"$", ""}, {"utf8", "", "a$b"}},
	"Lock":           {{"EXTENDEDPROTOCOL", "", "extendedprotocol", "EXTENDED"}, {"abc", "", "a b"}, {" ", "", "  "}, {"Pk=", "", "pk=", "Pk"}, {"vers", "", "a b", "Pk="}, {"", "Ref=", "ref=", "Ref"}, {"", "h:1", "a b", "Ref="}},
	"Search":         {{"1.2.3.4:412", "Hub:nick", "Hub:", "", "hub:x", "Hub:a$b", "Hub:&lt;"}, {" ", "", "  "}, {"T", "F", "", "x", "TT", "t"}, {"?", ""}, {"F", "T", "", "x", "t"}, {"?", ""}, {"5", "0", "-1", "", "-", "-x", " 5", "+5", "18446744073709551615", "18446744073709551616"}, {"?", ""}, {"1", "9", "0", "14", "", "x", "-1", " 1", "09"}, {"?", ""}, {"a", "", "a$b", "TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "TTH:", "TTH:A", "a&#36;b", "$", "a?b"}},
	"SR":             {{"nick", "", "a$", "&lt;"}, {" ", "", "  "}, {"dir", "", "\\", "a\\b", "a\\", "\\a", "a/b", "a 1/2", "&#36;"}, {"\x05", " ", "", "\x05\x05"}, {"7", "0", "", "x", "-1", "18446744073709551616"}, {" ", "", "  "}, {"1", "0", "", "x", "-1"}, {"/", ""}, {"2", "0", "", "x", "-1"}, {"\x05", "", " "}, {"Hub", "", "TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "TTH:A", "a (b)", "&gt;"}, {" (", "(", "", "  ("}, {"h:1", "", "a)b"}, {")", "", "))"}, {"", "\x05", "\x05me", "\x05a\x05b", "x"}},
	"SA":             {{"LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "", "LWPN", "lWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN1"}, {" ", "", "  "}, {"1.2.3.4:5", "", "a b"}},
	"SP":             {{"LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "", "LWPN", "lWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN1"}, {" ", "", "  "}, {"nick", "", "a b", "&lt;", "a$"}},
	"Supports":       {{"A", "", "&lt;"}, {" ", "", "  ", "\t"}, {"B", "", "A", "b$"}, {"", " "}},
	"UserIP":         {{"a", "", "a b", "&lt;"}, {" ", "", "  "}, {"1.1.1.1", "", "x"}, {"$$", "", "$", "$$$"}, {"b", "", "&gt;"}, {" ", ""}, {"2.2.2.2", ""}, {"$$", "", "$$$$", "$$\r"}},
	"OpList":         {{"a", "", "&lt;"}, {"$$", "", "$", "$$$$", "$$$"}, {"b", "", "a b"}, {"$$", "", "$$$$", "$"}},
	"FailOver":       {{"a", "", "a b"}, {",", "", ",,", ", "}, {"b:1", ""}},
	"MyINFO":         {{"$ALL ", "", "$all ", "$ALL"}, {"nick", "", "a$b", "&lt;"}, {" ", "", "  "}, {"desc", "", "a<b>", "&#36;", "a<"}, {"<", "", "<<"}, {"cl", "", "a b", "++", "V:1"}, {" V:", "", " v:", ",V:", " V"}, {"1", "", "1.2,3"}, {",M:", ",", ",m:", ""}, {"A", "P", "5", "", "AB", " "}, {",H:", ",h:", ""}, {"1/2/3", "1", "1/2", "", "x", "1/x/3", "1/2/3/4", " 1/2/3", "-1/2/3", "1/2/x"}, {",S:", ",s:", ""}, {"4", "", "x", "-1", " 4"}, {"", ",O:5", ",Z:5", ",xx:1", ",F:1/2", ",", ",:", ",x", ",O:1:2", ",V:2", ",M:P"}, {">", "", ">>", "> "}, {"$", ""}, {" ", "A", "P", "", "AB", "5"}, {"$", ""}, {"100", "", "&lt;"}, {"\x01", "", "\x11", "\x31"}, {"$", ""}, {"mail", "", "&gt;"}, {"$", ""}, {"5", "", "0", "x", "-1", " 5", "18446744073709551615", "18446744073709551616"}, {"$", "", "$$", "$x"}},
}

// more for the names and texts among them
var (
	nmdcNameSlots = map[string][]int{"Chat": {1}, "To:": {0, 2, 4}, "MCTo": {0, 3}, "ConnectToMe": {0}, "RevConnectToMe": {0, 2}, "SR": {0, 14}, "SP": {2}, "UserIP": {0, 4}, "OpList": {0, 2}, "MyINFO": {1}}
	nmdcTextSlots = map[string][]int{"Chat": {4}, "To:": {6}, "MCTo": {5}, "UserCommand": {4, 6}, "ADCGET": {2}, "ADCSND": {2}, "HubINFO": {0, 4, 16, 20}, "Search": {10}, "SR": {2, 10}, "MyINFO": {3, 17, 20}}
)

// nmdcNumberSlots are the places of the numbers, with what stands around each of them.
var nmdcNumberSlots = map[string]map[int][]string{
	"UserCommand": {0: {"%"}, 2: {"%"}}, "ADCGET": {4: {"%"}, 6: {"%"}, 8: {" DB%"}}, "ADCSND": {4: {"%"}, 6: {"%"}},
	"Direction": {2: {"%"}}, "HubINFO": {6: {"%"}, 8: {"%"}, 10: {"%"}, 12: {"%"}}, "Search": {6: {"%"}, 8: {"%"}},
	"SR": {4: {"%"}, 6: {"%"}, 8: {"%"}}, "MyINFO": {11: {"%", "%/2/3", "1/%/3", "1/2/%"}, 13: {"%"}, 22: {"%"}},
}

// the forms of numbers and of what comes close to one
var nmdcNumbers = []string{"-", "+", "--1", "+-1", "- 1", "1-", "1 2", "-0", "007", "1_0", "0x10", "1.0", "1e3", "\u0663", "  6  ", "999999999", "1234567890", "-999999999", "-123456789",
	"2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551614", "18446744073709551619", "184467440737095516150", " "}

func init() {
	for t, is := range nmdcNameSlots {
		for _, i := range is {
			pre := ""
			if t == "SR" && i == 14 {
				pre = "\x05"
			}
			nmdcSlots[t][i] = append(nmdcSlots[t][i], pre+strings.Repeat("n", 256), pre+strings.Repeat("n", 257), pre+"x\xffy", pre+"x\x00y")
		}
	}
	for t, is := range nmdcTextSlots {
		for _, i := range is {
			nmdcSlots[t][i] = append(nmdcSlots[t][i], "x\xffy", "x\x00y", strings.Repeat("t", 300))
		}
	}
	nmdcSlots["ConnectToMe"][5] = append(nmdcSlots["ConnectToMe"][5], " "+strings.Repeat("n", 257), " x\xffy", " x<y")
}

// slotBodies calls f with the bodies in which at most max parts are unusual.
func slotBodies(slots [][]string, max int, f func(body string)) {
	cur := make([]string, len(slots))
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == len(slots) {
			f(strings.Join(cur, ""))
			return
		}
		for j, s := range slots[i] {
			if j == 0 || left > 0 {
				cur[i] = s
				if j == 0 {
					rec(i+1, left)
				} else {
					rec(i+1, left-1)
				}
			}
		}
	}
	rec(0, max)
}

// numberBodies calls f with usual bodies that have one unusual number.
func numberBodies(t string, f func(body string)) {
	for i, s := range nmdcSlots[t] {
		for _, form := range nmdcNumberSlots[t][i] {
			for _, n := range append(s, nmdcNumbers...) {
				var b strings.Builder
				for j, o := range nmdcSlots[t] {
					if j == i {
						b.WriteString(strings.Replace(form, "%", n, 1))
					} else {
						b.WriteString(o[0])
					}
				}
				f(b.String())
			}
		}
	}
}

// slotBody is a random one.
func (g *gen) slotBody(slots [][]string) string {
	p := []float64{0.1, 0.2, 0.4}[g.Intn(3)]
	var b strings.Builder
	for _, s := range slots {
		if chance(g.Rand, p) {
			b.WriteString(g.one(s))
		} else {
			b.WriteString(s[0])
		}
	}
	return b.String()
}

func tokenBody(t string, toks []string) []byte {
	s := strings.Join(toks, "")
	switch t {
	case "MyINFO":
		s = "$ALL n d<c V:1" + s + ">$ $1\x01$e$5$"
	case "Search":
		s = "a T?" + s
	case "SR":
		s = "n " + s
	case "HubINFO":
		s = "h$h$d$0$1" + s
	}
	return []byte(s)
}

// allTokens calls fnc for all sequences of up to n tokens.
func allTokens(toks []string, n int, fnc func(a []string)) {
	var rec func(a []string)
	rec = func(a []string) {
		fnc(a)
		if len(a) < n {
			for _, t := range toks {
				rec(append(a[:len(a):len(a)], t))
			}
		}
	}
	rec(nil)
}
