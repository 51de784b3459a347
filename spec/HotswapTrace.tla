---------------------------- MODULE HotswapTrace ----------------------------
(***************************************************************************)
(* Conformance: replays recorded runs of the real code, one after the       *)
(* other, through HotswapCore and reports, for every run, the properties it *)
(* violates (line BAD) and that it was read to its end (line END).          *)
(***************************************************************************)
EXTENDS HotswapCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r,    \* run
          l,    \* next event of the run
          S,    \* state
          bad   \* properties violated so far in the run

vars == <<r, l, S, bad>>

Init == /\ r = 1 /\ l = 1 /\ bad = {}
        /\ S = IF Len(Traces) = 0 THEN <<>> ELSE State0(Traces[1].hdr)

\* invariants can only change with these events
Weighty(e, T) == e.e \in {"onfree", "settle"} \/ T.cur # S.cur

Event ==
  /\ r <= Len(Traces) /\ l <= Len(Traces[r].ev)
  /\ \E p \in {Proc(S, Traces[r].ev[l])} :    \* bound, not defined by LET: TLC evaluates it once
      \E v \in {p.v \cup (IF Weighty(Traces[r].ev[l], p.s) THEN InvViol(p.s) ELSE {})} :
        /\ S' = p.s
        /\ bad' = bad \cup v
        /\ IF v \subseteq bad THEN TRUE ELSE PrintT(<<"BAD", Traces[r].n, l, v \ bad>>)
  /\ l' = l + 1
  /\ UNCHANGED r

NextRun ==
  /\ r <= Len(Traces) /\ l > Len(Traces[r].ev)
  /\ r' = r + 1 /\ l' = 1 /\ bad' = {}
  /\ S' = IF r < Len(Traces) THEN State0(Traces[r + 1].hdr) ELSE <<>>

Done == r > Len(Traces) /\ UNCHANGED vars

Next == Event \/ NextRun
Spec == Init /\ [][Next]_vars
\* every event of every run has been consumed: one state per event and per run, plus the first
Accepted == LET n == [x \in DOMAIN Traces |-> Len(Traces[x].ev) + 1]
                RECURSIVE Sum(_)
                Sum(x) == IF x = 0 THEN 0 ELSE n[x] + Sum(x - 1)
            IN PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Sum(Len(Traces)), Len(Traces)>>)
=============================================================================
