-------------------------------- MODULE Total -------------------------------
(* What every call of a decoder or an encoder has in common: it is begun, and    *)
(* it ends with a value or with an error; and reading a stream makes progress.   *)
EXTENDS Naturals, Sequences
Outcomes == {"value", "error"}
\* counts of the outcomes of n calls that were begun
AllEnd(n_, ok_, err_, other_) == ok_ + err_ = n_ /\ other_ = 0
\* Every value takes at least the delimiter of the stream, of which n_ bytes were sent; compression
\* makes of one byte no more than 1032.
Progress(n_, zlib_, values_) == values_ <= (IF zlib_ THEN 1032 * n_ ELSE n_)
=============================================================================
