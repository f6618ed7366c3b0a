package main

import (
	"bytes"
	"strings"
	"sync/atomic"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/nmdc"
	"golang.org/x/text/encoding/charmap"
)

var churns atomic.Int64

var churnFrames = []string{
	"<nick> some &#36;text&#124;|", "$Search Hub:nick T?F?1000?1?a$b$c|", "$MyINFO $ALL nick desc<++ V:1,M:A,H:1/2/3,S:4>$ $cable1$mail$100$|",
	"$UserCommand 1 3 a\\b$<x> y|", "$NickList a$$b$$c$$|", "$To: a From: b $<b> text|", "$SR nick a/b.txt\x051/2\x05hub (1.2.3.4:5)\x05dst|",
	"$Lock EXTENDEDPROTOCOLabc Pk=x Ref=y|", "$Supports A B C|", "$ADCSND file TTH/LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ 0 100|",
}

// churn decodes and encodes other things on other connections, so that whatever was returned before
// and still refers to shared memory changes.
func churn() {
	yield()
	k := int(churns.Add(1))
	_ = call(func() {
		fr := []byte(strings.Replace(churnFrames[k%len(churnFrames)], "a", strings.Repeat("xY", k%37), k%3))
		dec := charmap.Windows1251.NewDecoder()
		if k%2 == 0 {
			dec = nil
		}
		if m, err := nmdc.Unmarshal(dec, fr); err == nil {
			enc := charmap.Windows1251.NewEncoder()
			if k%2 == 0 {
				enc = nil
			}
			_, _ = nmdc.Marshal(enc, m)
		}
	})
	_ = call(func() {
		buf := bytes.NewBuffer(nil)
		s := strings.Repeat("~ \\\n", 1+k%29)
		_ = adc.Marshal(buf, &adc.UserInfo{Name: s, Desc: s, ShareSize: int64(k), Features: adc.ExtFeatures{{'Q', 'Q', 'Q', 'Q'}}})
		u := &adc.UserInfo{}
		_ = adc.Unmarshal(buf.Bytes(), u)
		pbuf := bytes.NewBuffer(nil)
		_ = (&adc.FeaturePacket{Msg: &adc.RawMessage{Type: adc.MsgType{'Q', 'Q', 'Q'}, Data: []byte(s)}, ID: types.SID{0x51, 0x51, 0x51, 0x51},
			Sel: []adc.FeatureSel{{Fea: adc.Feature{'Q', 'Q', 'Q', 'Q'}, Sel: true}}}).MarshalPacketADC(pbuf)
		_, _ = adc.DecodePacketRaw(pbuf.Bytes())
		_, _ = adc.DecodePacket([]byte("BMSG QQQQ " + strings.Repeat("qs", k%23) + "\n"))
	})
}
