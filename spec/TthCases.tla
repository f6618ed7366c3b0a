------------------------------ MODULE TthCases ------------------------------
(* Validation of recorded tree hashes.  Names of hashes: numbers given by the  *)
(* harness; blocks names the leaves of the data, table the nodes over any of   *)
(* them that it made with the Tiger primitive.                                *)
EXTENDS Tth, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
\* the source was read up to its end or failure
ReadAll(C, rd) ==
  \E n \in 1..Len(rd) : /\ rd[n] = (IF C.fail THEN "err" ELSE "eof")
                         /\ \A i \in 1..(n-1) : rd[i] = "" /\ \A i_ \in (n+1)..Len(rd) : rd[i_] = "again"
Wrong(C) ==
  LET root == Root(C.blocks, C.table) IN
  IF C.k = "list"
  THEN (IF C.root.st = "ok" /\ C.root.h = root /\ root # 0 THEN {} ELSE {"root of the list"})
       \cup (IF C.after = C.blocks THEN {} ELSE {"the list was changed"})
  ELSE (IF Len(C.blocks) = NBlocks(C.len, BlockSize) /\ root # 0 THEN {} ELSE {"harness"})
       \cup (IF C.fail THEN (IF C.root.st = "failed" THEN {} ELSE {"the failure is not reported"})
                            \cup (IF C.leaves.st = "failed" THEN {} ELSE {"the failure is not reported with the leaves"})
             ELSE (IF C.root.st = "ok" /\ C.root.h = root THEN {} ELSE {"root"})
                  \cup (IF C.leaves.st = "ok" /\ C.leaves.l = C.blocks THEN {} ELSE {"leaves"})
                  \cup (IF C.red.st = "ok" /\ C.red.h = root THEN {} ELSE {"root of the leaves"})
                  \cup (IF C.after = C.blocks THEN {} ELSE {"the leaves were changed"}))
       \cup (IF ReadAll(C, C.reads1) /\ ReadAll(C, C.reads2) THEN {} ELSE {"reading"})
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
