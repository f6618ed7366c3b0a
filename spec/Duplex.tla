------------------------------- MODULE Duplex -------------------------------
(* Two peers, each with a writer and a reader, over a transport that delivers what was put on it in
   arbitrary pieces and blocks when there is nothing.

   The content of a direction is a sequence of units: a line, message, packet or keep-alive is one
   unit, a byte of a binary block is one unit, the head of a compressed section is one.  Whatever was flushed is delivered, in order, and the
   reader does not ask the transport for later bytes to do so: it may wait only when everything that
   was flushed has been handed out.  Hence two peers never wait for each other while a request or a
   response is on its way. *)
EXTENDS Naturals, Sequences

\* the state of one direction
Quiet == [sent |-> << >>, nf |-> 0, nr |-> 0, closed |-> FALSE]

\* units are accepted by the writer
Accept(d, us) == [d EXCEPT !.sent = @ \o us]
\* flush, switching compression off, closing
Flushed(d)    == [d EXCEPT !.nf = Len(d.sent)]
\* switching compression on: the head of the section, which was just accepted, may stay behind
SwitchedOn(d) == [d EXCEPT !.nf = Len(d.sent) - 1]
CloseDir(d)   == [Flushed(d) EXCEPT !.closed = TRUE]
\* units are handed out
CanDeliver(d, us) == d.nr + Len(us) <= Len(d.sent) /\ \A i_ \in 1..Len(us) : d.sent[d.nr + i_] = us[i_]
Deliver(d, us)    == [d EXCEPT !.nr = @ + Len(us)]
\* the rest of a block is discarded, whether it has arrived or not
Discard(d, n)      == [d EXCEPT !.nr = @ + n]
\* the reader waits for the transport
CanWait(d) == d.nr >= d.nf
\* a call that needs nothing more than what was handed out (the end of a block, or discarding its rest)
CanWaitDone(d) == d.nr > d.nf
\* the reader reports the end
CanEnd(d)  == d.closed /\ d.nr = Len(d.sent)
=============================================================================
