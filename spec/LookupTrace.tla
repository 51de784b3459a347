----------------------------- MODULE LookupTrace -----------------------------
(***************************************************************************)
(* Every call of Plugin.Lookup that the harness made is judged; together    *)
(* they must cover all cases of the specification.                          *)
(***************************************************************************)
EXTENDS Lookup, Json, IOUtils, TLC

Calls == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Case(e) == <<e.name, [k |-> e.sk, t |-> e.st], [k |-> e.ok, t |-> e.ot]>>
Next == /\ l <= Len(Calls)
        /\ LET e == Calls[l]
               c == Case(e)
           IN IF e.panic \/ c \notin Cases \/ <<e.res, e.eff>> # Outcome(c[1], c[2], c[3])
                 THEN PrintT(<<"BAD", l, {"C18"}>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
\* sanity of the table itself, checked once
ASSUME \A t \in TypeNames : Assignable(Types[t], Types[t])
ASSUME \A t \in TypeNames : Assignable(Types[t], Types["any"])
ASSUME \A a, b \in TypeNames : (Types[a].named /\ Types[b].named /\ ~IsIface(Types[b]) /\ a # b) => ~Assignable(Types[a], Types[b])
\* an error never changes the target, success always does; ErrNotExist only for absent symbols
ASSUME \A c \in Cases : LET o == Outcome(c[1], c[2], c[3]) IN
         /\ (o[1] = "ok") <=> (o[2] # "same")
         /\ (o[1] = "notexist") => (c[2].k \in {"none", "static"} \/ c[1] = "sym")
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Calls), Cardinality(Cases), Cardinality({Case(Calls[x]) : x \in DOMAIN Calls})>>)
=============================================================================
