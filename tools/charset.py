#!/usr/bin/env python3
"""Generates spec/Charset.tla from Python's codecs (independent of the Go tables)."""
SINGLE = ["cp1251", "cp1250", "koi8-r"]
# characters of GBK whose second byte is significant in NMDC, and a few others
gbk = []
for a in (0x81, 0x82, 0x84):
    for t in (0x7C, 0x5C, 0x60, 0x40, 0x7E, 0x7B):
        c = bytes([a, t]).decode("gbk")
        gbk.append((ord(c), a, t))
for c in "中文网络用户你好世界":
    e = c.encode("gbk")
    gbk.append((ord(c), e[0], e[1]))
print("------------------------------ MODULE Charset ------------------------------")
print("(* Generated by tools/charset.py.  Code points of the bytes 128..255 (0: undefined). *)")
print("EXTENDS Naturals, Sequences, Bytes")
print()
print("Single ==")
rows = []
for cs in SINGLE:
    pts = []
    for b in range(128, 256):
        u = bytes([b]).decode(cs, "replace")
        pts.append("0" if u == "\ufffd" else str(ord(u)))
    rows.append('   ("%s" :> << %s >>)' % (cs, ", ".join(pts)))
print(" @@\n".join(rows))
print()
print("\\* << code point, first byte, second byte >>")
print("GbkTab == << " + ", ".join("<<%d, %d, %d>>" % g for g in gbk) + " >>")
print(r"""
Charsets == {"utf8", "gbk"} \cup DOMAIN Single
\* Besides these there is "strict", whose decoder and encoder return an error for everything beyond ASCII.

\* Bytes of the connection to UTF-8.  def says if the result is determined.
RECURSIVE GbkDec(_)
GbkDec(b) ==
  IF b = << >> THEN [def |-> TRUE, v |-> << >>]
  ELSE IF b[1] < 128
  THEN LET r == GbkDec(Tail(b)) IN [def |-> r.def, v |-> << b[1] >> \o r.v]
  ELSE LET I == {i \in DOMAIN GbkTab : Len(b) >= 2 /\ GbkTab[i][2] = b[1] /\ GbkTab[i][3] = b[2]} IN
       IF I = {} THEN [def |-> FALSE, v |-> << >>]
       ELSE LET r == GbkDec(From(b, 3)) IN
            [def |-> r.def, v |-> Utf8Enc(GbkTab[CHOOSE i \in I : TRUE][1]) \o r.v]

CsDecFails(cs, b) == cs = "strict" /\ \E i \in DOMAIN b : b[i] >= 128
CsDec(cs, b) ==
  CASE \A i \in DOMAIN b : b[i] < 128 -> [def |-> TRUE, v |-> b]
    [] cs = "utf8" -> [def |-> TRUE, v |-> b]
    [] cs = "gbk" -> GbkDec(b)
    [] OTHER ->
       LET tab == Single[cs] IN
       [def |-> \A i \in DOMAIN b : b[i] < 128 \/ tab[b[i] - 127] # 0,
        v |-> Flatten([i \in DOMAIN b |-> IF b[i] < 128 THEN << b[i] >> ELSE Utf8Enc(tab[b[i] - 127])])]

\* UTF-8 to the bytes of the connection.  ok says if the encoding can represent it;
\* without an encoding text is sent as it is.
CsEnc(cs, t) ==
  CASE cs = "utf8" -> [def |-> TRUE, ok |-> TRUE, v |-> t]
    [] \A i \in DOMAIN t : t[i] < 128 -> [def |-> TRUE, ok |-> TRUE, v |-> t]
    [] cs = "strict" \/ ~Utf8Valid(t) -> [def |-> TRUE, ok |-> FALSE, v |-> << >>]
    [] cs = "gbk" ->
       LET R == Runes(t)
           ix(r) == {i \in DOMAIN GbkTab : GbkTab[i][1] = r}
           enc(r) == IF r < 128 THEN << r >> ELSE LET i == CHOOSE i \in ix(r) : TRUE IN << GbkTab[i][2], GbkTab[i][3] >>
       IN IF \A i \in DOMAIN R : R[i] < 128 \/ ix(R[i]) # {}
          THEN [def |-> TRUE, ok |-> TRUE, v |-> Flatten([i \in DOMAIN R |-> enc(R[i])])]
          \* emoji are certainly not in GBK
          ELSE [def |-> \E i \in DOMAIN R : R[i] >= 65536, ok |-> FALSE, v |-> << >>]
    [] OTHER ->
       LET R == Runes(t) tab == Single[cs]
           ix(r) == {i \in 1..128 : tab[i] = r}
           enc(r) == IF r < 128 THEN << r >> ELSE << 127 + (CHOOSE i \in ix(r) : TRUE) >>
       IN IF \A i \in DOMAIN R : R[i] < 128 \/ ix(R[i]) # {}
          THEN [def |-> TRUE, ok |-> TRUE, v |-> Flatten([i \in DOMAIN R |-> enc(R[i])])]
          ELSE [def |-> TRUE, ok |-> FALSE, v |-> << >>]
=============================================================================""")
