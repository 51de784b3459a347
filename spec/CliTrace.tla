------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Conformance: replays what the real tool did through CliCore.             *)
(***************************************************************************)
EXTENDS CliCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, S, bad
vars == <<r, l, S, bad>>

Init == /\ r = 1 /\ l = 1 /\ bad = {}
        /\ S = IF Len(Traces) = 0 THEN <<>> ELSE CState0(Traces[1].hdr)

Event ==
  /\ r <= Len(Traces) /\ l <= Len(Traces[r].ev)
  /\ \E p \in {CProc(S, Traces[r].ev[l])} :    \* bound, not defined by LET: TLC evaluates it once
        /\ S' = p.s
        /\ bad' = bad \cup p.v
        /\ IF p.v = {} THEN TRUE ELSE PrintT(<<"BAD", Traces[r].n, l, p.v>>)
  /\ l' = l + 1
  /\ UNCHANGED r

NextRun ==
  /\ r <= Len(Traces) /\ l > Len(Traces[r].ev)
  /\ r' = r + 1 /\ l' = 1 /\ bad' = {}
  /\ S' = IF r < Len(Traces) THEN CState0(Traces[r + 1].hdr) ELSE <<>>

Next == Event \/ NextRun
Spec == Init /\ [][Next]_vars
Accepted == LET n == [x \in DOMAIN Traces |-> Len(Traces[x].ev) + 1]
                RECURSIVE Sum(_)
                Sum(x) == IF x = 0 THEN 0 ELSE n[x] + Sum(x - 1)
            IN PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Sum(Len(Traces)), Len(Traces)>>)
=============================================================================
