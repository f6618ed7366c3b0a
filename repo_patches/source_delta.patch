From 80c6246b5b273da21f234cccdf5a71bf904877ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 01/48] fix: adc: refuse messages with missing positional
 fields instead of panicking

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..3e96cb4 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("missing positional field %s", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From c99cac515ad04954511937598fefe4a7b51e69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 02/48] fix: tiger: check the length of a base32 hash before
 decoding it

---
 tiger/tiger.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..213587e 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,18 +80,14 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
-	n, err := base32Enc.Decode((*h)[:], buf)
-	if err != nil {
-		return err
-	}
-	if n != Size {
-		return fmt.Errorf("wrong base32 encoded size: %d vs %d", n, Size)
-	}
-	return nil
+	return h.FromBase32(string(buf))
 }
 
 // FromBase32 parses hash from base32 encoding.
 func (h *Hash) FromBase32(s string) error {
+	if len(s) != Base32Size {
+		return fmt.Errorf("wrong base32 string length: %d vs %d", len(s), Base32Size)
+	}
 	b, err := base32Enc.DecodeString(s)
 	if err != nil {
 		return err
-- 
2.43.0


From f31129bef19a518fded14578d2c2ea2b562fe052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 03/48] fix: adc: refuse malformed feature selectors in feature
 packets

---
 adc/packets.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..a369ab7 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -690,31 +690,18 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 		data = nil
 	}
 	p.Sel = make([]FeatureSel, 0, len(data)/5)
-	for i := 0; i < len(data); i++ {
-		if data[i] == '+' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: true})
-			i += 4
-		} else if data[i] == '-' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: false})
-			i += 4
-		} else if data[i] == ' ' {
-			data = data[i:]
-			i = 0
-		} else {
-			data = data[i:]
-			break
+	for len(data) != 0 && (data[0] == '+' || data[0] == '-') {
+		if len(data) < 5 {
+			return fmt.Errorf("short feature: '%s'", string(data))
+		} else if len(data) > 5 && data[5] != ' ' {
+			return fmt.Errorf("separator expected: '%s'", string(data[:6]))
 		}
-		if i+1 == len(data) {
+		var fea Feature
+		copy(fea[:], data[1:5])
+		p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: data[0] == '+'})
+		if len(data) > 6 {
+			data = data[6:]
+		} else {
 			data = nil
 		}
 	}
-- 
2.43.0


From 695ed84f8b96ed7fea3abd01d8430cefd2283b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 04/48] fix: adc: don't take a line delimiter for a part of SID
 or CID

---
 adc/packets.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index a369ab7..dfbb722 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -313,7 +313,7 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 4+1 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -408,7 +408,7 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 9+1 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -504,7 +504,7 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 9+1 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -673,7 +673,7 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 4+1 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -766,7 +766,7 @@ func (p *UDPPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 
 func (p *UDPPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	const l = 39 // len of CID in base32
-	if len(data) < l {
+	if len(data) < l+1 {
 		return errors.New("short upd command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-- 
2.43.0


From 8d1f4be695700d2e0511f97014e6444ac68ba653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 05/48] fix: adc: refuse an empty info packet body instead of
 panicking

---
 adc/packets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/packets.go b/adc/packets.go
index dfbb722..c1b3782 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From 4285e55deeb4a0a471f750f6811400dad44ae5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 06/48] fix: adc: unescape values of Fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From ee1e0cbf637a426fa2442018a9cd500f3bd6741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 07/48] fix: adc: decode 0 as false and refuse malformed bool
 values

---
 adc/marshal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 3e96cb4..b56c347 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,14 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		switch s[0] {
+		case '0':
+			rv.SetBool(false)
+		case '1':
+			rv.SetBool(true)
+		default:
+			return errors.New("invalid bool value: " + string(s))
+		}
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 7dedfeb1da6eed1e062af2923c58c76c75b90d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 08/48] fix: adc: refuse non-integral and overflowing numbers

---
 adc/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index b56c347..6dc7333 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -62,8 +62,8 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 			vf, err2 := strconv.ParseFloat(sv, bits)
 			if err2 != nil {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
+			} else if math.Round(vf) != vf || vf < -(1<<63) || vf >= 1<<63 {
+				return err
 			}
 			vi = int64(vf)
 		}
-- 
2.43.0


From 30e82b36541ae517784a8b521cdec1dd3c3696be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 09/48] fix: adc: refuse malformed password salt

---
 adc/hub.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/adc/hub.go b/adc/hub.go
index 68982d7..63dbc75 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -3,6 +3,7 @@ package adc
 import (
 	"bytes"
 	"encoding/base32"
+	"fmt"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -83,8 +84,14 @@ func (m GetPassword) MarshalADC(buf *bytes.Buffer) error {
 
 func (m *GetPassword) UnmarshalADC(data []byte) error {
 	size := base32Enc.DecodedLen(len(data))
+	if base32Enc.EncodedLen(size) != len(data) {
+		return fmt.Errorf("wrong salt length: %d", len(data))
+	}
 	m.Salt = make([]byte, size)
-	_, err := base32Enc.Decode(m.Salt, data)
+	n, err := base32Enc.Decode(m.Salt, data)
+	if err == nil && n != size {
+		err = fmt.Errorf("malformed salt: %q", string(data))
+	}
 	return err
 }
 
-- 
2.43.0


From 10ca06d36679b47186f42ff371519c4c6dcaaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 10/48] fix: adc: removed feature is not set

---
 adc/types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adc/types.go b/adc/types.go
index 086701b..3cd3e63 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -155,8 +155,7 @@ func (f ModFeatures) IsSet(s Feature) bool {
 	if f == nil {
 		return false
 	}
-	_, ok := f[s]
-	return ok
+	return f[s]
 }
 
 func (f ModFeatures) SetFrom(fp ModFeatures) ModFeatures {
-- 
2.43.0


From faece698fac63fad9905355212e7892e2b4a36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 11/48] fix: nmdc: don't panic on short locks

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..b2fe3ae 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// the key is not defined for a lock this short
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From 289e7fd057c8450631f96df4999f49ef1bab833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 12/48] fix: nmdc: use decoded path in search results

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..13bf9fa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -359,7 +359,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From fef484ae656284053041df81a2c75dbb3b8c9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 13/48] fix: nmdc: keep escaped dollar signs in search patterns

---
 nmdc/msg_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 13bf9fa..c28ea62 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -192,12 +192,14 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
+		// only raw '$' are spaces, escaped ones are a part of the pattern
+		field = bytes.Replace(field, []byte("$"), []byte(" "), -1)
 		var str String
 		err := str.UnmarshalNMDC(dec, field)
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From e73204d6b690bcb75d3f90ff675aa6283bbf02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 14/48] fix: nmdc: write the rest of the batch if a message is
 dropped by a hook

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..72cd817 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue write // drop only this message
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From 8c2c7a90e4eb63fedb4b41a9b2228bac5f82ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 15/48] fix: nmdc: don't decode to a message that was dropped
 or skipped

---
 nmdc/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..2ad87d8 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -147,6 +147,7 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
+	orig := *ptr
 read:
 	for {
 		line, err := r.ReadLine()
@@ -174,7 +175,7 @@ read:
 		}
 		origLine := line
 		var (
-			out  = *ptr
+			out  = orig // previous message might have been dropped
 			cmd  []byte
 			args []byte
 		)
-- 
2.43.0


From 0269e80d10b1bd9a3f4ba1b9a733d586ed5e563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 16/48] fix: nmdc: correct end of the name in chat messages
 with a trailing bracket

---
 nmdc/msg_chat.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..f02f110 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -54,6 +54,11 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	// message text|
 	if len(data) != 0 && data[0] == '<' {
 		data = data[1:]
+		if len(data) == 0 {
+			return &ErrProtocolViolation{
+				Err: errors.New("name in chat message should have a closing token"),
+			}
+		}
 		var (
 			i    int // index where name ends
 			off  = 0 // space between the name and the message
@@ -77,7 +82,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From f1b11152af37da2b3d7b3fcfe1c53e86d07899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 17/48] fix: nmdc: allow to switch encoding on file identifiers
 and command paths

---
 nmdc/msg_chat.go  | 2 +-
 nmdc/msg_files.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index f02f110..fdbd8c5 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -340,7 +340,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		var s String
 		err := s.UnmarshalNMDC(dec, p)
 		if err != nil {
-			return errors.New("invalid path user command")
+			return err
 		}
 		m.Path = append(m.Path, string(s))
 	}
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..d9f5f13 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -67,7 +67,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCGet: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
@@ -170,7 +170,7 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCSnd: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
-- 
2.43.0


From 6db18f2e382acc6b006d8fd6b0933b2d843245a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 18/48] fix: nmdc: refuse ADCGET length that overflows

---
 nmdc/msg_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index d9f5f13..b29394d 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -92,7 +93,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		m.Length = -1
 	} else {
 		lengthNum, err := parseUin64Trim(length)
-		if err != nil {
+		if err != nil || lengthNum > math.MaxInt64 {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
 		m.Length = int64(lengthNum)
-- 
2.43.0


From f230f906ac0c595aab41776704be8be8e35983b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 19/48] fix: nmdc: decode empty lists of user addresses and
 failover hosts

---
 nmdc/msg_hub.go       | 4 ++++
 nmdc/msg_user_list.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/nmdc/msg_hub.go b/nmdc/msg_hub.go
index 935f1cd..913947d 100644
--- a/nmdc/msg_hub.go
+++ b/nmdc/msg_hub.go
@@ -96,6 +96,10 @@ func (m *FailOver) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *FailOver) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
+	if len(data) == 0 {
+		m.Host = nil
+		return nil
+	}
 	hosts := bytes.Split(data, []byte(","))
 	m.Host = make([]string, 0, len(hosts))
 	for _, host := range hosts {
diff --git a/nmdc/msg_user_list.go b/nmdc/msg_user_list.go
index 85b0306..1f0ed26 100644
--- a/nmdc/msg_user_list.go
+++ b/nmdc/msg_user_list.go
@@ -110,6 +110,10 @@ func (m *UserIP) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 func (m *UserIP) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	data = bytes.TrimSuffix(data, []byte("\r"))
 	data = bytes.TrimSuffix(data, []byte("$$"))
+	if len(data) == 0 {
+		m.List = nil
+		return nil
+	}
 	sub := bytes.Split(data, []byte("$$"))
 	m.List = make([]UserAddress, 0, len(sub))
 	for _, s := range sub {
-- 
2.43.0


From 91e7149f0fe63f11281e8543c2d533b1140894c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 20/48] fix: nmdc: unset user mode in a tag is the unknown mode

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..d6632d6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -341,7 +341,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'V':
 			m.Client.Version = string(val)
 		case 'M':
-			if len(val) == 1 {
+			if len(val) == 1 && val[0] != ' ' {
 				m.Mode = UserMode(val[0])
 			} else {
 				m.Mode = UserModeUnknown
-- 
2.43.0


From 19d6f782a863f27e5f831af5413a9663aca5e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 21/48] fix: nmdc: don't overwrite preceding data when
 marshaling an empty chat message

---
 nmdc/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..8e41551 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -126,7 +126,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if n == buf.Len() && m.Type() != "" {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From 6c37c89dbd3fd8bc661c7bd915a9aa28a6727b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 22/48] fix: nmdc: don't panic when marshaling an empty list of
 extensions

---
 nmdc/extensions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..af97363 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,7 +43,7 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
-	n := len(m.Ext) - 1
+	n := len(m.Ext)
 	for _, ext := range m.Ext {
 		n += len(ext)
 	}
-- 
2.43.0


From 47b661e9c389e465974efde65f9eca7f834a3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 23/48] fix: nmdc: refuse to encode names that the peer will
 refuse to decode

---
 nmdc/types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index c893cc8..bc01717 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -94,7 +94,14 @@ func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 			return err
 		}
 	}
-	return escapeName(buf, str)
+	start := buf.Len()
+	if err := escapeName(buf, str); err != nil {
+		return err
+	}
+	if buf.Len()-start > maxName {
+		return errors.New("name is too long")
+	}
+	return nil
 }
 
 func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
-- 
2.43.0


From 09690acf1a00cc7b5fda468d58dba2d7f010552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 24/48] fix: nmdc: copy the data of an unexpected message

---
 nmdc/reader.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 2ad87d8..0028a4a 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -221,7 +221,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: append([]byte{}, args...),
 						},
 					}
 				}
@@ -234,14 +234,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: append([]byte{}, args...),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: append([]byte{}, args...),
 					},
 				}
 			}
@@ -271,7 +271,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: append([]byte{}, args...),
 						},
 					}
 				}
@@ -284,7 +284,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: append([]byte{}, args...),
 					},
 				}
 			}
-- 
2.43.0


From 0bd4397b986e0a5a6d0098b91ddd2fe78940269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 25/48] fix: lineproto: don't panic on empty reads when zlib is
 active

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..3321951 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) {
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From bca39ed4a10c0abeae71c2d0fff64a08d9644b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 26/48] fix: lineproto: keep the state intact when zlib cannot
 be activated

---
 lineproto/reader.go | 2 +-
 lineproto/writer.go | 2 +-
 nmdc/writer.go      | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 3321951..7348c88 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -255,7 +255,6 @@ func (r *Reader) EnableZlib() error {
 	} else if r.zlibOn {
 		return errZlibAlreadyActive
 	}
-	r.zlibOn = true
 
 	if r.zlib != nil {
 		err := r.zlib.(zlib.Resetter).Reset(r.original, nil)
@@ -276,6 +275,7 @@ func (r *Reader) EnableZlib() error {
 		r.compressed = newBufReader(r.zlib)
 	}
 	r.cur = r.compressed
+	r.zlibOn = true
 	return nil
 }
 
diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..7e794ee 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -98,7 +98,6 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
@@ -109,6 +108,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
diff --git a/nmdc/writer.go b/nmdc/writer.go
index 72cd817..5539c2e 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"compress/zlib"
+	"fmt"
 	"io"
 	"sync/atomic"
 
@@ -93,6 +94,10 @@ func (w *Writer) ZOn() error {
 
 // ZOnLevel enables compression with a given level on this writer.
 func (w *Writer) ZOnLevel(lvl int) error {
+	if lvl < zlib.HuffmanOnly || lvl > zlib.BestCompression {
+		// check it before telling the peer that compression is on
+		return fmt.Errorf("nmdc: invalid compression level: %d", lvl)
+	}
 	if err := w.WriteLine([]byte("$" + zonName + "|")); err != nil {
 		return err
 	}
-- 
2.43.0


From fd5d0996088c18d0a9bb233377313084917d887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 27/48] fix: lineproto: remember errors of unbuffered writes
 and set timeout for them

---
 lineproto/writer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 7e794ee..2f3da74 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -176,7 +176,19 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return 0, err
+		}
+		defer w.Timeout(false)
+	}
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From 1613a8a7c6354440a1048985ac40602f039db7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 28/48] fix: lineproto: set timeout when closing the writer or
 disabling zlib

---
 lineproto/writer.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 2f3da74..bcf6cb9 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,13 +65,26 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
-	last := w.bw.Flush()
+	var last error
+	armed := true
+	if w.Timeout != nil {
+		if last = w.Timeout(true); last != nil {
+			armed = false
+		} else {
+			defer w.Timeout(false)
+		}
+	}
+	if armed {
+		last = w.bw.Flush()
+	}
 	if w.err == nil {
 		w.err = errWriterClosed
 	}
 	if w.zlibOn {
-		if err := w.zlibW.Close(); err != nil {
-			last = err
+		if armed {
+			if err := w.zlibW.Close(); err != nil {
+				last = err
+			}
 		}
 		w.zlibOn = false
 		w.zlibW = nil
@@ -121,6 +134,14 @@ func (w *Writer) DisableZlib() error {
 	} else if !w.zlibOn {
 		return errZlibNotActive
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return err
+		}
+		defer w.Timeout(false)
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From 73056442363e1fb2268c741389e4028a4e299333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 29/48] fix: lineproto: don't panic on operations with a closed
 writer

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index bcf6cb9..a5106bf 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return w.err // already closed
+	}
 	var last error
 	armed := true
 	if w.Timeout != nil {
-- 
2.43.0


From 2df906ce6436a315fc6148760f31fd96f49c74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 30/48] fix: tiger: hash full blocks regardless of how the
 reader splits them

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..47426a1 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads the whole block, unless the stream ends or fails.
+func readBlock(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nr int
+		nr, err = r.Read(buf[n:])
+		n += nr
+	}
+	return n, err
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +72,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From e952139ee88c828a97ac1d688bac26459696b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 31/48] fix: select ADC by an URL scheme, not by a prefix of
 the host name

---
 conn.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..e95d18c 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,19 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has a schema of the ADC protocol.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	schema := strings.ToLower(addr[:i])
+	return schema == adc.SchemaADC || schema == adc.SchemaADCS
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +28,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From f142e841d8d92d6de2639d8c61d167dd58082bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 32/48] fix: nmdc: don't keep fields of a previous message when
 decoding into the same value

A message dropped by a hook left its optional fields in the destination of
ReadMsgTo and ReadMsgToAny, and thus in the message delivered next.
---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index fdbd8c5..df19a1e 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -49,6 +49,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{} // drop the fields of a message decoded before
 	// <user> message text|
 	// or
 	// message text|
@@ -300,6 +301,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{} // drop the fields of a message decoded before
 	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..78905e2 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{} // drop the fields of a message decoded before
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..e0d4acc 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{} // drop the fields of a message decoded before
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{} // drop the fields of a message decoded before
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index b29394d..1f078f7 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -53,6 +53,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{} // drop the fields of a message decoded before
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -156,6 +157,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{} // drop the fields of a message decoded before
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..55e0ee8 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{} // drop the fields of a message decoded before
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index c28ea62..6f9defb 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{} // drop the fields of a message decoded before
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -291,6 +292,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{} // drop the fields of a message decoded before
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index d6632d6..173aeb6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -193,6 +193,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{} // drop the fields of a message decoded before
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From a4297e35393bd367f50bc092213188279a1c9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 33/48] fix: nmdc: split a user command path after decoding it

In multi-byte encodings (GBK, Shift JIS) a backslash may be the second byte of a
character, which was cut in two.
---
 nmdc/msg_chat.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index df19a1e..58546f6 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -333,18 +334,18 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		return fmt.Errorf("invalid raw user command: %q", string(data))
 	}
 	path := bytes.TrimRight(val[:i], " ")
-	sub := bytes.Split(path, []byte("\\"))
+	// the separator is a character, it may be a part of another one in multi-byte encodings
+	var spath String
+	if err := spath.UnmarshalNMDC(dec, path); err != nil {
+		return err
+	}
+	sub := strings.Split(string(spath), "\\")
 	m.Path = make([]string, 0, len(sub))
 	for _, p := range sub {
 		if len(p) == 0 {
 			continue
 		}
-		var s String
-		err := s.UnmarshalNMDC(dec, p)
-		if err != nil {
-			return err
-		}
-		m.Path = append(m.Path, string(s))
+		m.Path = append(m.Path, p)
 	}
 
 	var s String
-- 
2.43.0


From 1e198935ee93a33a27501ae9f453e22508b2b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 34/48] fix: nmdc: encode negative user command types as they
 are decoded

---
 nmdc/msg_chat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 58546f6..8bd666f 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -274,9 +274,9 @@ func (*UserCommand) Type() string {
 
 func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 	var b [10]byte
-	bi := strconv.AppendUint(b[:0], uint64(m.Typ), 10)
+	bi := strconv.AppendInt(b[:0], int64(m.Typ), 10)
 	bi = append(bi, ' ')
-	bi = strconv.AppendUint(bi, uint64(m.Context), 10)
+	bi = strconv.AppendInt(bi, int64(m.Context), 10)
 	if len(m.Path) != 0 {
 		bi = append(bi, ' ')
 		buf.Write(bi)
-- 
2.43.0


From 53bd8269412cdf120bc119ce98c81a6a558b4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 35/48] fix: adc: ignore unknown flags of GET and SND

---
 adc/files.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/adc/files.go b/adc/files.go
index 9959464..3a3305b 100644
--- a/adc/files.go
+++ b/adc/files.go
@@ -3,6 +3,7 @@ package adc
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"strconv"
 )
 
@@ -94,11 +95,19 @@ func (m *GetRequest) UnmarshalADC(data []byte) error {
 		return errors.New("ADCGET: unable to parse field 4")
 	}
 
-	if len(data) > 0 {
-		if !bytes.Equal(data, []byte("ZL1")) {
-			return errors.New("ADCGET: invalid field 5")
+	m.Compressed = false
+	for _, flag := range bytes.Split(data, []byte(" ")) {
+		if !bytes.HasPrefix(flag, []byte("ZL")) {
+			continue // not known to us
+		}
+		switch string(flag) {
+		case "ZL0":
+			m.Compressed = false
+		case "ZL1":
+			m.Compressed = true
+		default:
+			return fmt.Errorf("ADCGET: invalid flag: %q", string(flag))
 		}
-		m.Compressed = true
 	}
 
 	return nil
-- 
2.43.0


From f3eac0863bc8242078eceeafd21d97758db6bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 36/48] fix: adc: refuse repeated identifiers and feature lists
 like other single values

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index 6dc7333..d074a1e 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -143,6 +143,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		}
 		if len(vals) > 0 {
 			if m, ok := rv.Field(i).Addr().Interface().(Unmarshaler); ok {
+				if len(vals) > 1 {
+					return fmt.Errorf("error on field %s: expected single value", fld.Name)
+				}
 				if err := m.UnmarshalADC(vals[0]); err != nil {
 					return fmt.Errorf("error on field %s: %s", fld.Name, err)
 				}
-- 
2.43.0


From 35a8f3da43cd36dfd8fc82c6c374abaa8a55fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 37/48] fix: do not unescape address paths when trimming
 slashes

Only the decoded path was trimmed, so the original encoding was dropped:
h/a%2Fb/ became h/a/b, and h/a%2F became h/a.
---
 adc/conn.go  | 12 +++++++++++-
 nmdc/conn.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/adc/conn.go b/adc/conn.go
index 4c5cf4e..cb7f5e7 100644
--- a/adc/conn.go
+++ b/adc/conn.go
@@ -24,10 +24,20 @@ func ParseAddr(addr string) (*url.URL, error) {
 	if u.Scheme != SchemaADC && u.Scheme != SchemaADCS {
 		return u, fmt.Errorf("unsupported protocol: %q", u.Scheme)
 	}
-	u.Path = strings.TrimRight(u.Path, "/")
+	trimSlashes(u)
 	return u, nil
 }
 
+// trimSlashes removes trailing slashes from the path, but not the escaped ones.
+func trimSlashes(u *url.URL) {
+	path := u.EscapedPath()
+	n := len(path) - len(strings.TrimRight(path, "/"))
+	u.Path = u.Path[:len(u.Path)-n]
+	if u.RawPath != "" {
+		u.RawPath = path[:len(path)-n]
+	}
+}
+
 // NormalizeAddr parses and normalizes the address to scheme://host:port format.
 func NormalizeAddr(addr string) (string, error) {
 	u, err := ParseAddr(addr)
diff --git a/nmdc/conn.go b/nmdc/conn.go
index 8cde7b6..0fc2a3a 100644
--- a/nmdc/conn.go
+++ b/nmdc/conn.go
@@ -29,10 +29,20 @@ func ParseAddr(addr string) (*url.URL, error) {
 	if u.Scheme != SchemeNMDC && u.Scheme != SchemeNMDCS {
 		return u, fmt.Errorf("unsupported protocol: %q", u.Scheme)
 	}
-	u.Path = strings.TrimRight(u.Path, "/")
+	trimSlashes(u)
 	return u, nil
 }
 
+// trimSlashes removes trailing slashes from the path, but not the escaped ones.
+func trimSlashes(u *url.URL) {
+	path := u.EscapedPath()
+	n := len(path) - len(strings.TrimRight(path, "/"))
+	u.Path = u.Path[:len(u.Path)-n]
+	if u.RawPath != "" {
+		u.RawPath = path[:len(path)-n]
+	}
+}
+
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
 	u, err := ParseAddr(addr)
-- 
2.43.0


From b18c1ebfe9ace5db5bb78fc5c7b2e7ce03648061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 38/48] fix: refuse an empty port in ADC addresses

There is no default port, and adc://host: names none.
---
 adc/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/conn.go b/adc/conn.go
index cb7f5e7..6b4a0ab 100644
--- a/adc/conn.go
+++ b/adc/conn.go
@@ -44,11 +44,13 @@ func NormalizeAddr(addr string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	host, _, err := net.SplitHostPort(u.Host)
+	host, port, err := net.SplitHostPort(u.Host)
 	if err != nil {
 		return "", fmt.Errorf("failed to parse host-port pair: %v", err)
 	} else if host == "" {
 		return "", fmt.Errorf("no hostname in address: %q", addr)
+	} else if port == "" {
+		return "", fmt.Errorf("no port in address: %q", addr)
 	}
 	return u.String(), nil
 }
-- 
2.43.0


From d133a7a4640c6ba4aa6e4ac643f812cceb30e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 39/48] fix: allow :// in the path and query of NMDC addresses
 without scheme

hub:411?from=http://site was taken for an address with an unsupported scheme.
---
 nmdc/conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nmdc/conn.go b/nmdc/conn.go
index 0fc2a3a..a32f415 100644
--- a/nmdc/conn.go
+++ b/nmdc/conn.go
@@ -14,9 +14,15 @@ const (
 	DefaultPort = 411     // default port for client-hub connections
 )
 
+// hasScheme checks if the address starts with a scheme.
+func hasScheme(addr string) bool {
+	i := strings.Index(addr, "://")
+	return i >= 0 && !strings.ContainsAny(addr[:i], "/?#")
+}
+
 // ParseAddr parses an NMDC address as a URL. It will assume a dchub:// scheme if none is set.
 func ParseAddr(addr string) (*url.URL, error) {
-	if !strings.Contains(addr, "://") {
+	if !hasScheme(addr) {
 		addr = SchemeNMDC + "://" + addr
 	}
 	u, err := url.Parse(addr)
-- 
2.43.0


From 275aa8851d9df4f724c6107c0c5331f1abe6427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 40/48] fix: nmdc: write Direction numbers above the range of
 int as they are

---
 nmdc/msg_files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 1f078f7..647a162 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -225,7 +225,7 @@ func (m *Direction) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 		buf.Write([]byte("Download"))
 	}
 	buf.WriteByte(' ')
-	buf.WriteString(strconv.Itoa(int(m.Number)))
+	buf.WriteString(strconv.FormatUint(uint64(m.Number), 10))
 	return nil
 }
 
-- 
2.43.0


From 1471910733ad9624ff32a0c38ffac9a97c22012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 41/48] fix: nmdc: encodings set by hooks apply to the next
 message of the same call

---
 nmdc/reader.go | 2 +-
 nmdc/writer.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 0028a4a..1147f56 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -146,10 +146,10 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
 	orig := *ptr
 read:
 	for {
+		dec := r.Decoder() // hooks may change it
 		line, err := r.ReadLine()
 		if err != nil {
 			return err
diff --git a/nmdc/writer.go b/nmdc/writer.go
index 5539c2e..84bcf43 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,7 +65,6 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 	if err := w.Writer.Err(); err != nil {
 		return err
 	}
-	enc := w.Encoder()
 write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
@@ -76,7 +75,7 @@ write:
 			}
 		}
 		w.mbuf.Reset()
-		err := MarshalTo(enc, &w.mbuf, m)
+		err := MarshalTo(w.Encoder(), &w.mbuf, m) // hooks may change the encoder
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 17c420a98d8b2db9fbaa7ec82cad526e43a573ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 42/48] fix: adc: refuse numbers beyond int16 and int32 fields
 instead of cutting them

---
 adc/marshal.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index d074a1e..7fff21f 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -51,21 +51,19 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 	}
 	switch rv.Kind() {
 	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
-		bits := 64
-		switch rv.Kind() {
-		case reflect.Int32, reflect.Int16:
-			bits = 32
-		}
 		sv := string(s)
-		vi, err := strconv.ParseInt(sv, 10, bits)
+		vi, err := strconv.ParseInt(sv, 10, rv.Type().Bits())
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
+			vf, err2 := strconv.ParseFloat(sv, 64)
 			if err2 != nil {
 				return err
 			} else if math.Round(vf) != vf || vf < -(1<<63) || vf >= 1<<63 {
 				return err
 			}
 			vi = int64(vf)
+			if rv.OverflowInt(vi) {
+				return err
+			}
 		}
 		rv.SetInt(vi)
 		return nil
-- 
2.43.0


From 23487d99950650f70e30235249e3523b18bf418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 43/48] fix: adc: decode unsigned fields, which could only be
 encoded

---
 adc/marshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index 7fff21f..7abb592 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -67,6 +67,13 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		}
 		rv.SetInt(vi)
 		return nil
+	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16:
+		vi, err := strconv.ParseUint(string(s), 10, rv.Type().Bits())
+		if err != nil {
+			return err
+		}
+		rv.SetUint(vi)
+		return nil
 	case reflect.String:
 		rv.SetString(unescape(s))
 		return nil
-- 
2.43.0


From dd8a3fd75cfb18e33df43f319bf17bb9567f4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 44/48] fix: adc: don't panic when encoding fields of types
 that cannot be compared

---
 adc/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 7abb592..f7f2397 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -214,10 +214,10 @@ func marshalValue(buf *bytes.Buffer, o interface{}) error {
 
 func isZero(v reflect.Value) bool {
 	switch v.Kind() {
-	case reflect.Ptr, reflect.Slice:
+	case reflect.Ptr, reflect.Slice, reflect.Map:
 		return v.IsNil()
 	default:
-		return v.Interface() == reflect.Zero(v.Type()).Interface()
+		return reflect.DeepEqual(v.Interface(), reflect.Zero(v.Type()).Interface())
 	}
 }
 
-- 
2.43.0


From 4c16b3806b91b37d37004d1101cfdbc2f6021132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 45/48] fix: adc: a path decoded into a used message was
 appended to the old one

---
 adc/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/types.go b/adc/types.go
index 3cd3e63..41d350d 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -288,12 +288,14 @@ func (p Path) MarshalADC(buf *bytes.Buffer) error {
 
 func (p *Path) UnmarshalADC(data []byte) error {
 	arr := bytes.Split(data, []byte("/"))
+	out := make(Path, 0, len(arr))
 	for _, a := range arr {
 		var path String
 		if err := path.UnmarshalADC(a); err != nil {
 			return err
 		}
-		*p = append(*p, string(path))
+		out = append(out, string(path))
 	}
+	*p = out
 	return nil
 }
-- 
2.43.0


From bd369057862d27fc8e916df6d8364ca850a68efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 46/48] fix: lineproto: binary blocks of 2^63 bytes and more
 were read as empty

---
 lineproto/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 7348c88..39c3c89 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -285,6 +286,9 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
+	if sz > math.MaxInt64 {
+		sz = math.MaxInt64 // the stream cannot be longer
+	}
 	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
 }
 
-- 
2.43.0


From 87ee2a6a2597c05bb0467b03dc204dff390c9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 47/48] fix: tiger: the tree hash of an empty list of leaves
 panicked

---
 tiger/tth.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 47426a1..fb4dab3 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -38,8 +38,11 @@ func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	return
 }
 
-// TreeHash converts leaves into a hash.
+// TreeHash converts leaves into a hash. The hash is zero if there are no leaves.
 func (in Leaves) TreeHash() Hash {
+	if len(in) == 0 {
+		return Hash{}
+	}
 	// deep copy leaves since they must be modified in order to compute the hash
 	lvl := append([]Hash{}, in...)
 	buf := make([]byte, 2*Size+1)
-- 
2.43.0


From fbf93541b393854e8e1f653a729e766ceef7c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:20 +0000
Subject: [PATCH 48/48] fix: adc: an empty list of features left the earlier
 ones in a used message

---
 adc/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adc/types.go b/adc/types.go
index 41d350d..20ac387 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -225,6 +225,7 @@ func (f ExtFeatures) MarshalADC(buf *bytes.Buffer) error {
 
 func (f *ExtFeatures) UnmarshalADC(s []byte) error {
 	if len(s) < 1 {
+		*f = nil
 		return nil
 	}
 	sub := bytes.Split(s, []byte(","))
-- 
2.43.0

