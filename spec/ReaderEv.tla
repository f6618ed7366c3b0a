------------------------------ MODULE ReaderEv ------------------------------
(* Calls of a line reader with their outcomes, as steps of Reader.  Used both *)
(* for the model of the implementation (ReaderImpl) and for recorded sessions *)
(* of the real one (RdTrace).                                                 *)
(* An event is a record: e the call, its arguments, d the data and err the    *)
(* class of the error it returned ("", "eof", "tmp", "hook", "other").        *)
EXTENDS Reader

\* asks: how much of the stream was delivered each time the reader asked the transport for
\* more.  Never once the line is complete, and boundedly beyond the limit.
AsksOk(ev, start, end) ==
  \A i \in 1..Len(ev.asks) :
      /\ (end # 0 => ev.asks[i] < end)
      /\ (lim > 0 /\ ev.asks[i] >= start => ev.asks[i] - start < lim + Slack)

\* H: number of hooks; plain: asks is meaningful (nothing is compressed)
ReadLine(ev, H, plain) ==
  /\ ev.e = "line" /\ mode = "ok"
  /\ LET hs == HookScan(ev.log, off, H) IN
     /\ hs.ok /\ (H = 0 => ev.log = << >>)
     /\ CASE hs.end = "err" -> ev.err = "hook" /\ LineHookErr(hs.o)
          [] ev.err = ""    -> /\ hs.end = "acc" /\ LineOk(hs.o, ev.d)
                               /\ plain => AsksOk(ev, hs.o, EndAt(hs.o))
          [] OTHER ->
               /\ (H > 0 => hs.end = "none")
               /\ \/ ev.err = "eof" /\ LineEof(hs.o, ev.d)
                  \/ ev.err = "tmp" /\ LineTmp(hs.o, ev.d)
                  \/ /\ ev.err = "other" /\ (LineRefused(hs.o) \/ BrokenZ(hs.o))
                     /\ plain => AsksOk(ev, hs.o, 0)

RawRead(ev) ==
  /\ ev.e = "read"
  /\ \/ ev.err = "" /\ RawOk(ev.n, ev.d)
     \/ ev.err = "eof" /\ RawEof(ev.n, ev.d)
     \/ ev.err = "tmp" /\ RawOk(ev.n, ev.d)
     \/ ev.err = "other" /\ RawBroken(ev.n, ev.d)

Binary(ev) ==
  /\ ev.e = "bin"
  /\ \/ ev.err = "" /\ Block(ev.sz, ev.m, ev.d)
     \/ ev.err = "other" /\ BlockBroken(ev.sz)

Enable(ev) ==
  /\ ev.e = "zon"
  /\ \/ ev.err = "" /\ ZOnOk
     \/ ev.err = "other" /\ (ZOnActive \/ ZOnBroken)

Limit(ev) == ev.e = "max" /\ SetLimit(ev.n)
Close(ev) == ev.e = "close" /\ ev.err = "" /\ Shut

\* After a fatal outcome nothing more is demanded, except that calls return (C13);
\* a closed reader answers every call with an error.
After(ev) ==
  /\ mode # "ok" /\ ev.e # "close"
  /\ ev.err # "panic" /\ ev.err # "hang"
  /\ (mode = "closed" /\ ev.e # "max" => ev.err = "other")
  /\ UNCHANGED rvars
CloseAgain(ev) ==
  mode = "closed" /\ ev.e = "close" /\ ev.err # "panic" /\ ev.err # "hang" /\ UNCHANGED rvars

EvStep(ev, H, plain) ==
  \/ ReadLine(ev, H, plain) \/ RawRead(ev) \/ Binary(ev) \/ Enable(ev) \/ Limit(ev)
  \/ Close(ev) \/ After(ev) \/ CloseAgain(ev)
=============================================================================
