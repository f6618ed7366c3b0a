-------------------------- MODULE NmdcReadSession --------------------------
(* Reading an NMDC session: frames, keep-alives, hooks, call-backs, encodings *)
(* and typed reads.  The stream is known as a whole; how it arrives is the    *)
(* business of Reader.tla.                                                    *)
EXTENDS NmdcMsg

VARIABLES
  in,     \* bytes of the stream
  pos,    \* where the next frame begins
  cs,     \* encoding in use
  H,      \* [raw, msg |-> number of hooks, ka, enc, uerr |-> is the call-back set, maxcmd |-> number]
  ph,     \* idle, frame, ka, raw, decode, enc, uerr, msg, ret, any
  rq,     \* current call: [op |-> read/to/any, types |-> <<...>>, cmds |-> <<...>>]; cmds are the names raw messages are asked for by
  cur,    \* current frame: [chat, cmd, args, line, text, m]
  hk,     \* next hook
  res,    \* what the call has to return
  out     \* messages handed out so far
svars == << in, pos, cs, H, ph, rq, cur, hk, res, out >>

NoFrame == [chat |-> TRUE, to |-> 0, cmd |-> << >>, args |-> << >>, line |-> << >>, text |-> << >>, once |-> FALSE, m |-> [t |-> "nil", f |-> << >>]]
NoRes == [err |-> "", to |-> 0, m |-> [t |-> "nil", f |-> << >>], exp |-> << >>, rtyp |-> << >>, rdata |-> << >>]

SessionInit(stream, cs0, hooks) ==
  /\ in = stream /\ pos = 1 /\ cs = cs0 /\ H = hooks
  /\ ph = "idle" /\ rq = [op |-> "read", types |-> << >>, cmds |-> << >>] /\ cur = NoFrame /\ hk = 1 /\ res = NoRes /\ out = << >>

Fin(err) == ph' = "ret" /\ res' = [NoRes EXCEPT !.err = err]

\* the caller asks for a message
Call(o) == /\ ph = "idle" /\ ph' = "frame" /\ rq' = o
           /\ UNCHANGED << in, pos, cs, H, cur, hk, res, out >>

NameChar(b) == IsAlnum(b) \/ b \in {47, 45, 95, 46, 58}

\* take the next frame
Frame ==
  /\ ph = "frame"
  /\ LET e == FindByteFrom(in, Delim, pos)
         line == SubSeq(in, pos, e - 1)
         sp == FindByte(line, SP)
         c == [NoFrame EXCEPT !.line = line, !.args = line]
         d == [NoFrame EXCEPT !.line = line, !.chat = FALSE,
                              !.cmd = IF sp = 0 THEN Tail(line) ELSE SubSeq(line, 2, sp - 1),
                              !.args = IF sp = 0 THEN << >> ELSE From(line, sp + 1)]
     IN IF e = 0
        THEN /\ Fin("eof") /\ pos' = Len(in) + 1 /\ UNCHANGED << cur, hk >>
        ELSE /\ pos' = e + 1
             /\ IF HasByte(line, NUL) THEN Fin("proto") /\ UNCHANGED << cur, hk >>
                ELSE IF line = << >> THEN ph' = (IF H.ka THEN "ka" ELSE "frame") /\ UNCHANGED << cur, hk, res >>
                ELSE /\ cur' = (IF line[1] = DOLLAR THEN d ELSE c)
                     /\ ph' = "raw" /\ hk' = 1 /\ UNCHANGED res
  /\ UNCHANGED << in, cs, H, rq, out >>

KeepAlive(ret) ==
  /\ ph = "ka"
  /\ IF ret = "ok" THEN ph' = "frame" /\ UNCHANGED res ELSE ret = "err" /\ Fin("hook")
  /\ UNCHANGED << in, pos, cs, H, rq, cur, hk, out >>

RawHook(i, cmd, args, chat, ret) ==
  /\ ph = "raw" /\ hk <= H.raw /\ i = hk
  /\ chat = cur.chat /\ cmd = cur.cmd /\ args = cur.args
  /\ hk' = hk + 1
  /\ CASE ret = "ok" -> UNCHANGED << ph, res >>
       [] ret = "drop" -> ph' = "frame" /\ UNCHANGED res
       [] ret = "err" -> Fin("hook")
  /\ UNCHANGED << in, pos, cs, H, rq, cur, out >>

\* The message type of the current frame; is it what was asked for?
CurType == IF cur.chat THEN "Chat" ELSE TypeOf(cur.cmd)
\* what the i-th message asked for is called
Asked(i) == CASE rq.types[i] = "Chat" -> << >> [] rq.types[i] = "Raw" -> rq.cmds[i] [] OTHER -> B(rq.types[i])
\* A raw message takes the frame of its own name; among several it stands for all frames, and what happens
\* to a frame of another name is not specified.
Takes(i) == IF rq.types[i] # "Raw" THEN rq.types[i] = CurType ELSE ~cur.chat /\ cur.cmd = rq.cmds[i]
Open(i) == rq.op = "any" /\ rq.types[i] = "Raw"
Taker == LET T == {i \in DOMAIN rq.types : Takes(i) \/ Open(i)} IN
         IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : i <= j
BadName == ~cur.chat /\ (cur.cmd = << >> \/ Len(cur.cmd) > H.maxcmd \/ \E i \in DOMAIN cur.cmd : ~NameChar(cur.cmd[i]))

Accept ==
  /\ ph = "raw" /\ hk > H.raw
  /\ IF BadName THEN Fin("proto") /\ UNCHANGED cur
     ELSE IF rq.op = "read" THEN ph' = "decode" /\ UNCHANGED << res, cur >>
     ELSE IF Taker = 0
     THEN /\ ph' = "ret" /\ UNCHANGED cur
          /\ res' = [NoRes EXCEPT !.err = "unexpected", !.exp = Asked(1),
                                  !.rtyp = cur.cmd, !.rdata = cur.args]
     ELSE IF ~Takes(Taker) THEN ph' = "any" /\ UNCHANGED << res, cur >>
     ELSE ph' = "decode" /\ cur' = [cur EXCEPT !.to = Taker] /\ UNCHANGED res
  /\ UNCHANGED << in, pos, cs, H, rq, hk, out >>

\* decode with encoding x; once says if the fallback has been consulted
Decoded(x, args, once) ==
  LET r == IF cur.to # 0 /\ rq.types[cur.to] = "Raw" THEN Val([t |-> "Raw", f |-> [Typ |-> cur.cmd, Data |-> args]])
           ELSE DecodeMsg(x, cur.cmd, cur.chat, args) IN
  CASE r.st = "ok" -> /\ cur' = [cur EXCEPT !.m = r.v] /\ ph' = "msg" /\ hk' = 1 /\ UNCHANGED res
    [] r.st = "undef" -> ph' = "any" /\ UNCHANGED << cur, hk, res >>
    [] r.st = "enc" /\ H.enc /\ ~once -> ph' = "enc" /\ cur' = [cur EXCEPT !.text = r.v] /\ UNCHANGED << hk, res >>
    [] OTHER -> /\ IF H.uerr THEN ph' = "uerr" /\ UNCHANGED res ELSE Fin("bad")
                /\ UNCHANGED << cur, hk >>

DecodeStep == /\ ph = "decode" /\ Decoded(cs, cur.args, FALSE)
              /\ UNCHANGED << in, pos, cs, H, rq, out >>

\* invalid bytes become U+FFFD
RECURSIVE ToValid(_, _)
ToValid(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE LET n == RuneLen(s, i) IN
       IF n = 0 THEN << 239, 191, 189 >> \o ToValid(s, i + 1) ELSE SubSeq(s, i, i + n - 1) \o ToValid(s, i + n)

\* The fallback for undecodable text: fails, gives up (nil), or names the encoding,
\* which stays in use.
EncFallback(text, ret) ==
  /\ ph = "enc" /\ text = cur.text
  /\ CASE ret = "err" -> Fin("hook") /\ UNCHANGED << cs, cur, hk >>
       [] ret = "nil" -> Decoded("utf8", ToValid(cur.args, 1), TRUE) /\ UNCHANGED cs
       [] OTHER -> Decoded(ret, cur.args, TRUE) /\ cs' = ret
  /\ UNCHANGED << in, pos, H, rq, out >>

UnmarshalError(line, ret) ==
  /\ ph = "uerr" /\ line = cur.line
  /\ IF ret = "skip" THEN ph' = "frame" /\ UNCHANGED res ELSE ret = "err" /\ Fin("hook")
  /\ UNCHANGED << in, pos, cs, H, rq, cur, hk, out >>

Same(m, w) == m.t = w.t /\ Sem(m.t, m.f) = w.f
MsgHook(i, m, ret) ==
  /\ ph = "msg" /\ hk <= H.msg /\ i = hk /\ Same(m, cur.m)
  /\ hk' = hk + 1
  /\ CASE ret = "ok" -> UNCHANGED << ph, res >>
       [] ret = "drop" -> ph' = "frame" /\ UNCHANGED res
       [] ret = "err" -> Fin("hook")
  /\ UNCHANGED << in, pos, cs, H, rq, cur, out >>

Deliver ==
  /\ ph = "msg" /\ hk > H.msg
  /\ ph' = "ret" /\ res' = [NoRes EXCEPT !.m = cur.m, !.to = IF rq.op = "any" THEN cur.to ELSE 0]
  /\ UNCHANGED << in, pos, cs, H, rq, cur, hk, out >>

\* the call returns
Return(r) ==
  /\ ph = "ret" /\ ph' = "idle"
  /\ CASE res.err = "" -> r.err = "" /\ Same(r.m, res.m) /\ r.to = res.to
       [] res.err = "unexpected" -> r.err = "unexpected" /\ r.exp = res.exp /\ r.rtyp = res.rtyp /\ r.rdata = res.rdata
       [] res.err = "bad" -> r.err \in {"proto", "other"}
       [] OTHER -> r.err = res.err
  /\ out' = (IF res.err = "" THEN Append(out, res.m) ELSE out)
  /\ res' = NoRes /\ cur' = NoFrame /\ hk' = 1
  /\ UNCHANGED << in, pos, cs, H, rq >>

\* messages handed out have not changed since
Recheck(ms) ==
  /\ ph = "idle"
  /\ Len(ms) = Len(out) /\ \A i \in DOMAIN ms : Same(ms[i], out[i])
  /\ UNCHANGED svars

\* the user changes the encoding, perhaps in a hook
SetCs(x) == /\ ph \in {"idle", "ka", "raw", "msg"} /\ cs' = x
            /\ UNCHANGED << in, pos, H, ph, rq, cur, hk, res, out >>

\* the user adds hooks, sets or removes call-backs, or changes the limit of names
Configure(h) == /\ ph = "idle" /\ H' = h
                /\ UNCHANGED << in, pos, cs, ph, rq, cur, hk, res, out >>

Silent == Frame \/ Accept \/ DecodeStep \/ Deliver
=============================================================================
