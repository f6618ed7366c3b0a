------------------------------ MODULE Sessions ------------------------------
(* Several sessions - connections, single encodings and decodings - of one process.

   A session does its work in slices; between two slices (in a read or write of its transport, in
   a hook of the user, between two operations) any other session may go on.  What is under way is
   kept in the session's own working memory.  The specification of the whole process is the
   conjunction of the specifications of the sessions over disjoint variables: whatever the
   schedule, a session does exactly what it does when alone, so a recorded process conforms if and
   only if each of its sessions conforms to its own specification (RdTrace, WrTrace, NrTrace,
   NwTrace, ArTrace, AwTrace, NmdcCodec, AdcCodec, PacketCases, ...).

   Here all schedules of bursts are enumerated; the harness runs the sessions of the real code
   under each of them.  SharedBreaks shows that the schedules tell: were there one working memory
   for all sessions, a schedule of three bursts would already change what a session yields. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,         \* sessions
          Bursts,    \* lengths of bursts
          MaxBursts, \* bursts of a schedule
          OpLen,     \* slices of an operation
          Emit

\* what a session does in its k-th slice, as a function of its working memory
In(s, k) == << s, k >>
Work(s, k, mem) == IF k % OpLen = 1 THEN << In(s, k) >> ELSE Append(mem, In(s, k))
Ends(k) == k % OpLen = 0

RECURSIVE Alone(_, _)
Alone(s, k) == \* << memory, results >> after k slices of a session that is alone
  IF k = 0 THEN << << >>, << >> >>
  ELSE LET p == Alone(s, k - 1) m == Work(s, k, p[1])
       IN << m, IF Ends(k) THEN Append(p[2], m) ELSE p[2] >>

\* one memory for all: the results of all sessions after a schedule of slices
RECURSIVE SharedRun(_, _, _, _)
SharedRun(sched, mem, cnt, out) ==
  IF sched = << >> THEN out
  ELSE LET s == sched[1] k == cnt[s] + 1 m == Work(s, k, mem)
       IN SharedRun(SubSeq(sched, 2, Len(sched)), m, [cnt EXCEPT ![s] = k],
                    IF Ends(k) THEN [out EXCEPT ![s] = Append(@, m)] ELSE out)
SharedBreaks ==
  SharedRun(<< 1, 2 >> \o [i_ \in 1..(OpLen - 1) |-> 1], << >>, << 0, 0 >>, << << >>, << >> >>)[1] # Alone(1, OpLen)[2]
ASSUME OpLen > 1 /\ SharedBreaks

VARIABLES pc, mem, out, plan, nb
vars == << pc, mem, out, plan, nb >>
S_ == 1..N
Init == /\ pc = [s \in S_ |-> 0] /\ mem = [s \in S_ |-> << >>] /\ out = [s \in S_ |-> << >>]
        /\ plan = << >> /\ nb = 0

RECURSIVE Slices(_, _, _, _, _)
Slices(s, k, m, o, d) ==
  IF d = 0 THEN << k, m, o >>
  ELSE LET m2 == Work(s, k + 1, m) IN Slices(s, k + 1, m2, IF Ends(k + 1) THEN Append(o, m2) ELSE o, d - 1)

\* another session than the last one runs for d slices
Burst(s, d) ==
  /\ nb < MaxBursts
  /\ plan # << >> => plan[Len(plan)] # s
  /\ LET r == Slices(s, pc[s], mem[s], out[s], d) IN
       /\ pc' = [pc EXCEPT ![s] = r[1]]
       /\ mem' = [mem EXCEPT ![s] = r[2]]
       /\ out' = [out EXCEPT ![s] = r[3]]
  /\ plan' = plan \o [i_ \in 1..d |-> s]
  /\ nb' = nb + 1

Done ==
  /\ nb = MaxBursts
  /\ Emit => PrintT("SCEN " \o ToJson([n |-> N, plan |-> plan]))
  /\ UNCHANGED vars

Next == (\E s \in S_, d \in Bursts : Burst(s, d)) \/ Done
Spec == Init /\ [][Next]_vars

\* a session does what it does alone
Independent == \A s \in S_ : << mem[s], out[s] >> = Alone(s, pc[s])
\* and no step of one changes anything of another
Frame == [][\A s \in S_ : \A t \in S_ \ {s} :
              (pc'[s] # pc[s]) => pc'[t] = pc[t] /\ mem'[t] = mem[t] /\ out'[t] = out[t]]_vars
=============================================================================
