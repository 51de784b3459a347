---------------------------- MODULE HotswapCore ----------------------------
(***************************************************************************)
(* The plugin manager and its swapper, as an event-driven state machine.    *)
(*                                                                          *)
(* Every observable step of the system - a call by a client, the opening of *)
(* a plugin, the call of a plugin function or callback by the system, the   *)
(* return of a call, the passing of time, a look at Current() - is an event *)
(* e. For a state S and an event e                                          *)
(*                                                                          *)
(*     Proc(S, e).s   is the state after e                                  *)
(*     Proc(S, e).v   is the set of properties that e violates in S         *)
(*                                                                          *)
(* so the system specified here is: take only events with Proc(S,e).v = {}. *)
(* HotswapDesign explores exactly that system exhaustively and checks it    *)
(* against independently stated invariants; HotswapTrace replays what the   *)
(* real code did and collects the violated properties.                      *)
(*                                                                          *)
(* Property identifiers (C01 ...) are those of properties.jsonl.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(tags, bad) == IF bad THEN tags ELSE {}
Rng(s) == {s[i] : i \in DOMAIN s}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

AllFuncs == {"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable",
             "HotswapLiveFuncs", "HotswapLiveTypes"}

-----------------------------------------------------------------------------
(* Header of a run (what is configured):
     mode    "dyn" or "static"
     delay   configured free delay in ms, -1: not configured
     wl      whitelisted names (sequence)
     cb      a reload callback is configured
     ext     an extension newer is configured
     bl      blobs: the contents plugin files (or static plugins) can have
     st      static plugins: records [k, n, key, b]: map key, name, lower-case name, blob            *)

MinDelay == 15000
DefaultDelay == 300000
Delay(S) == IF S.h.delay = -1 THEN DefaultDelay ELSE Max(MinDelay, S.h.delay)
Slack == 1000    \* "promptly": within a second of virtual time

Static(S) == S.h.mode = "static"

State0(h) == [
  h    |-> h,
  t    |-> 0,                        \* virtual time, ms
  cur  |-> 0,                        \* current manager, 0: none
  disk |-> [ok |-> TRUE, fl |-> {}], \* the plugin directory
  ins  |-> Empty,                    \* plugin instances
  mg   |-> Empty,                    \* published managers
  at   |-> Empty,                    \* attempts: calls of LoadPlugins, Reload, ReloadWithCallback
  act  |-> 0,                        \* the attempt that began last
  cnt  |-> 0,                        \* successful reloads that have returned
  inv  |-> Empty,                    \* InvokeEach calls
  logd |-> 0,                        \* contained errors and panics that must have been logged
  vps  |-> Empty,                    \* vault -> attempt
  exts |-> Empty,                    \* extension object -> attempt
  nfail|-> 0,                        \* failed attempts
  npan |-> 0,                        \* panics injected by plugins or callbacks so far
  paths|-> Empty                     \* path -> content opened from it
]

Blob(S, i) == S.h.bl[S.ins[i].b]
KeyOf(S, i) == S.h.bl[S.ins[i].b].k

-----------------------------------------------------------------------------
(* Selection: which plugin files (or static plugins) a load covers.         *)

WL(S) == Rng(S.h.wl)

\* files: tuples [name, lower-case name, plugin suffix?, directory?, content, unreadable?]
SelFiles(S, disk) == {f \in disk.fl : f.so /\ ~f.dir /\ (WL(S) # {} => f.n \in WL(S))}
SelStatics(S) == {s \in Rng(S.h.st) : WL(S) # {} => s.k \in WL(S)}

Selection(S, a) ==    \* set of [k: lower-case name, b: content]
  IF Static(S) THEN {[k |-> s.key, b |-> s.b] : s \in SelStatics(S)}
  ELSE {[k |-> f.k, b |-> f.b] : f \in SelFiles(S, S.at[a].disk)}
SelKeys(S, a) == {s.k : s \in Selection(S, a)}

SelCount(S, a) == IF Static(S) THEN Cardinality(SelStatics(S)) ELSE Cardinality(SelFiles(S, S.at[a].disk))

SelProblems(S, a) ==
  IF Static(S) THEN
       V({"C11"}, \E w \in WL(S) : \A s \in Rng(S.h.st) : s.k # w)
  \cup V({"C11"}, SelCount(S, a) # Cardinality(SelKeys(S, a)))
  ELSE LET d == S.at[a].disk IN
       V({"C11"}, ~d.ok)
  \cup V({"C11"}, d.ok /\ \E w \in WL(S) : \A f \in SelFiles(S, d) : f.n # w)
  \cup V({"C11"}, SelCount(S, a) # Cardinality(SelKeys(S, a)))
  \cup V({"C01", "C11"}, \E f \in SelFiles(S, d) : f.bad)

\* nothing to load: the call succeeds without doing anything
Vacuous(S, a) == ~Static(S) /\ SelProblems(S, a) = {} /\ Selection(S, a) = {}

\* what a file held at some time since the attempt began
Seen(S, a, k) == {p[2] : p \in {p \in S.at[a].seen : p[1] = k}}

-----------------------------------------------------------------------------
(* Instances and the make-up of the manager an attempt is building.         *)

\* members of a published manager
Members(S, m) == IF m \in DOMAIN S.mg THEN S.mg[m].mem ELSE {}

InstOf(S, set, k) == IF \E i \in set : KeyOf(S, i) = k THEN CHOOSE i \in set : KeyOf(S, i) = k ELSE 0

\* a plugin of the old manager that has to be / may be carried over
MustKeep(S, a, i) == ~Static(S) /\ (~S.ins[i].rel \/ Seen(S, a, KeyOf(S, i)) = {S.ins[i].b})
MayKeep(S, a, i)  == ~Static(S) /\ (~S.ins[i].rel \/ S.ins[i].b \in Seen(S, a, KeyOf(S, i)))

NewKeys(S, a) == {KeyOf(S, i) : i \in S.at[a].new}

\* old instances that stay, as far as decided: those whose file is there and has not been opened anew
Kept(S, a) == {i \in Members(S, S.at[a].old) :
                 /\ ~Static(S)
                 /\ KeyOf(S, i) \in SelKeys(S, a)
                 /\ KeyOf(S, i) \notin NewKeys(S, a)
                 /\ MayKeep(S, a, i)}
Mem(S, a) == Kept(S, a) \cup S.at[a].new

\* every selected plugin is there
AllOpen(S, a) == SelKeys(S, a) = {KeyOf(S, i) : i \in Mem(S, a)}
Stage(S, a, st) == \A i \in S.at[a].new : st \in S.ins[i].ph

-----------------------------------------------------------------------------
(* Dependencies.                                                            *)

IsDep(x) == x.k \in {"any", "iface", "ptr", "val", "conv", "bad", "int", "anon"}   \* exported field, not tagged "-"
Fields(b) == IF b.impk = "struct" THEN Rng(b.imps) ELSE {}
DepKeys(b) == {x.d : x \in {y \in Fields(b) : IsDep(y)}}

\* is what a plugin exports assignable to a field of the given kind?
Assignable(exp, kind) ==
  CASE kind \in {"any", "iface"} -> TRUE
    [] kind = "ptr" -> exp = "obj"
    [] kind = "val" -> exp = "val"
    [] OTHER -> FALSE
ExportsNil(b) == b.exp \in {"nil", "tnil", "tnilm", "tnilf"}

RECURSIVE Strip(_, _)
\* what remains of the set ks of keys when those without dependencies in it are removed again and again
Strip(ks, dep) == LET free == {k \in ks : dep[k] \cap ks = {}}
                  IN IF free = {} THEN ks ELSE Strip(ks \ free, dep)

DepMap(S, mem) == [k \in {KeyOf(S, i) : i \in mem} |->
                     DepKeys(S.h.bl[S.ins[InstOf(S, mem, k)].b])]
Cyclic(S, mem) == LET dm == DepMap(S, mem) IN Strip(DOMAIN dm, dm) # {}

FieldProblem(S, mem, i, x) ==
  \/ x.k = "anon"
  \/ LET d == InstOf(S, mem, x.d) IN
     \/ d = 0
     \/ /\ d # 0
        /\ \/ ~S.ins[i].rel /\ S.ins[d].rel
           \/ ~ExportsNil(Blob(S, d)) /\ ~Assignable(Blob(S, d).exp, x.k)

DepProblem(S, a) ==
  LET new == S.at[a].new
      kept == Kept(S, a)
      mem == new \cup kept IN
  \/ \E i \in new : Blob(S, i).impk \in {"nonptr", "ptrint"}
  \/ \E i \in new : \E x \in Fields(Blob(S, i)) : IsDep(x) /\ FieldProblem(S, mem, i, x)
  \/ \E i \in kept : \E k \in DepKeys(Blob(S, i)) : InstOf(S, kept, k) = 0
  \/ Cyclic(S, mem)

\* what the import field x of instance i has to hold in a manager with members mem
WireOf(S, mem, i, x) ==
  IF ~IsDep(x) THEN -1
  ELSE LET d == InstOf(S, mem, x.d) IN
       IF d = 0 THEN -9
       ELSE IF ExportsNil(Blob(S, d)) THEN -1
       ELSE IF Blob(S, d).exp = "zero" THEN -3   \* a value that cannot be told from that of another instance
       ELSE d

RECURSIVE Below(_, _, _, _)
\* members on which those in front depend, directly or indirectly, together with those in seen
Below(S, mem, seen, front) ==
  LET ks == UNION {DepKeys(Blob(S, i)) : i \in front}
      next == {j \in mem \ seen : KeyOf(S, j) \in ks}
  IN IF next = {} THEN seen ELSE Below(S, mem, seen \cup next, next)
DepsBelow(S, mem, i) == Below(S, mem, {}, {i})

\* the sequence of instances respects the dependencies within mem
InOrder(S, mem, s) ==
  \A x, y \in DOMAIN s : (s[x] \in mem /\ s[y] \in mem /\ s[x] # s[y]
      /\ KeyOf(S, s[y]) \in DepKeys(Blob(S, s[x]))) => y < x

-----------------------------------------------------------------------------
(* The live tables.                                                         *)

LF(S, mem) == UNION {{<<k, i>> : k \in Rng(Blob(S, i).lf)} : i \in mem}
LT(S, mem) == UNION {{<<k, i>> : k \in Rng(Blob(S, i).lt)} : i \in mem}
Clash(tab) == \E x, y \in tab : x[1] = y[1] /\ x[2] # y[2]
LiveProblem(S, mem) ==
  \/ \E i \in mem : Blob(S, i).lfk # "ok" \/ Blob(S, i).ltk # "ok"
  \/ Clash(LF(S, mem)) \/ Clash(LT(S, mem))

-----------------------------------------------------------------------------
(* Plugins that break the contract.                                         *)
Broken(S, b) == Rng(b.miss) # {} \/ (~Static(S) /\ Rng(b.mist) # {})
BrokenOpened(S, a) == \E i \in S.at[a].new : Broken(S, Blob(S, i))
\* static plugins are refused before they become instances
BrokenStatic(S, a) == Static(S) /\ \E s \in Selection(S, a) : Broken(S, S.h.bl[s.b])

-----------------------------------------------------------------------------
(* Progress of an attempt.                                                  *)

ExpectedCbs(S, a) == (IF S.h.cb THEN <<1>> ELSE <<>>) \o (IF S.at[a].op = "reloadx" THEN <<2>> ELSE <<>>)
AllCbs(S, a) == S.at[a].cbs = ExpectedCbs(S, a)

Complete(S, a) == AllOpen(S, a) /\ Stage(S, a, "oninit")

\* The attempt has to fail. Each reason carries the properties that make it one.
Causes(S, a) ==
  LET A == S.at[a] IN
  IF Static(S) /\ A.op # "load" THEN {"C17"}
  ELSE IF ~A.begun THEN {} ELSE
       A.bad
  \cup SelProblems(S, a)
  \cup V({"C20"}, BrokenOpened(S, a) \/ BrokenStatic(S, a))
  \cup (IF SelProblems(S, a) = {} /\ A.bad = {} /\ AllOpen(S, a) /\ ~BrokenOpened(S, a) /\ ~BrokenStatic(S, a)
        THEN V({"C09"}, DepProblem(S, a)) \cup V({"C12"}, LiveProblem(S, Mem(S, a)))
        ELSE {})

\* The attempt has visibly failed: nothing more of it may run and its new plugins may be freed.
FailedBy(S, a) ==
  LET A == S.at[a] IN
  \/ A.st = "err"
  \/ A.begun /\
     \/ A.bad # {}
     \/ BrokenOpened(S, a) \/ BrokenStatic(S, a)
     \/ AllOpen(S, a) /\ Stage(S, a, "exp") /\ DepProblem(S, a)
     \/ AllOpen(S, a) /\ Stage(S, a, "onload") /\ LiveProblem(S, Mem(S, a))

\* Everything is in place for the new manager to become current.
Ready(S, a) ==
  /\ S.at[a].begun /\ S.at[a].st = "run" /\ ~S.at[a].sw
  /\ ~Vacuous(S, a) /\ Causes(S, a) = {}
  /\ Complete(S, a) /\ AllCbs(S, a)

InFlight(S) == {a \in DOMAIN S.at : S.at[a].st \in {"wait", "run"}}

-----------------------------------------------------------------------------
(* Which instances are in use?                                              *)

\* managers (published) that hold the instance
Holders(S, i) == {m \in DOMAIN S.mg : i \in S.mg[m].mem}
Superseded(S, m) == m # S.cur
HeldByCurrent(S, i) == S.cur # 0 /\ i \in Members(S, S.cur)
HeldByRetiring(S, i) == \E m \in Holders(S, i) : m # S.cur /\ S.t < S.mg[m].sup + Delay(S)
HeldByBuild(S, i) == \E a \in InFlight(S) : ~S.at[a].sw /\ i \in S.at[a].new /\ ~FailedBy(S, a)

-----------------------------------------------------------------------------
(* Sync: the manager returned by Current() at the event is not the one known so far. *)

\* attempts that can have published manager m
Publishers(S, m, e) ==
  LET bound == {a \in DOMAIN S.at : S.at[a].mgr = m}
      free  == {a \in InFlight(S) : S.at[a].mgr = 0 /\ ~S.at[a].sw}
      quiet == {a \in free : ~S.at[a].begun}   \* loads without any event: everything was carried over
  IN IF bound # {} THEN bound
     ELSE IF S.act \in {a \in free : S.at[a].begun /\ ~FailedBy(S, a)} THEN {S.act}
     ELSE IF e.e = "ret" /\ e.c \in quiet THEN {e.c}
     ELSE IF quiet # {} THEN {CHOOSE a \in quiet : TRUE}   \* or another one: see Exchange
     ELSE {a \in free : a = S.act}

Publish(S, a, m) ==
  [S EXCEPT !.mg = Put([x \in DOMAIN S.mg |-> IF x = S.cur THEN [S.mg[x] EXCEPT !.sup = S.t] ELSE S.mg[x]],
                        m, [mem |-> Mem(S, a), at |-> a, sup |-> -1, ord |-> <<>>, snap |-> <<>>, nf |-> S.nfail]),
            !.cur = m,
            !.at = [@ EXCEPT ![a].sw = TRUE, ![a].mgr = m]]

\* Several loads without any event overlap, and which one published what was put down to b cannot be told. When a
\* returns with success, it was a.
Exchange(S, a) ==
  LET bs == {b \in InFlight(S) : S.at[b].q} IN
  IF S.at[a].begun \/ S.at[a].sw \/ bs = {} THEN S
  ELSE LET b == CHOOSE x \in bs : TRUE IN
       [S EXCEPT !.at = [@ EXCEPT ![a] = [S.at[b] EXCEPT !.op = S.at[a].op, !.cfg = S.at[a].cfg, !.x = S.at[a].x, !.cnt0 = S.at[a].cnt0, !.may = @ \/ S.at[a].may],
                                  ![b] = [S.at[a] EXCEPT !.op = S.at[b].op, !.cfg = S.at[b].cfg, !.x = S.at[b].x, !.cnt0 = S.at[b].cnt0, !.may = @ \/ S.at[b].may]],
                 !.mg = [@ EXCEPT ![S.at[b].mgr].at = a],
                 !.act = IF @ = b THEN a ELSE @]

PublishViol(S, a, m) ==
  LET A == S.at[a] IN
       V({"C02"}, ~Ready(S, a))
  \cup V({"C01", "C02"}, A.st = "err" \/ Causes(S, a) # {} \/ FailedBy(S, a))
  \cup V({"C15"}, ~AllCbs(S, a) /\ ~FailedBy(S, a))
  \cup V({"C06"}, ~FailedBy(S, a) /\ ~Complete(S, a))
  \cup V({"C10", "C11"}, A.begun /\ A.bad = {} /\ ~AllOpen(S, a))
  \cup V({"C14"}, A.old # S.cur \/ S.act # a \/ A.st \notin {"wait", "run"})
  \cup V({"C03"}, \E i \in Mem(S, a) : S.ins[i].fr > 0)
  \cup Causes(S, a)

-----------------------------------------------------------------------------
(* Begin: an attempt takes its look at the directory and the current manager. It does so   *)
(* between its call and its first event, and after any load that had begun before.         *)

NewAttempt(e) == [op |-> e.op, cfg |-> e.cfg, x |-> e.x, st |-> "wait", begun |-> FALSE,
                  old |-> 0, disk |-> [ok |-> TRUE, fl |-> {}], seen |-> {}, new |-> {},
                  bad |-> {}, pan |-> FALSE, cbs |-> <<>>, mgr |-> 0, sw |-> FALSE, vp |-> 0, lone |-> FALSE, q |-> FALSE, may |-> FALSE,
                  ld |-> <<>>, cnt0 |-> 0]

Begin(S, a) ==
  IF S.at[a].begun THEN S
  ELSE [S EXCEPT !.at = [@ EXCEPT ![a].begun = TRUE, ![a].st = "run", ![a].old = S.cur, ![a].disk = S.disk,
                                  ![a].seen = (IF S.at[a].lone THEN @ ELSE {}) \cup {<<f.k, f.b>> : f \in SelFiles(S, S.disk)}],
                 !.act = a]

\* an attempt whose first event comes while an earlier one that is not over yet... is found out when the
\* earlier one goes on: then it is not the one that began last
NotActive(S, a) == S.at[a].begun /\ S.act # a

-----------------------------------------------------------------------------
(* The events. Each operator yields [s, v].                                 *)

Res(s, v) == [s |-> s, v |-> v]

EvFs(S, e) ==
  LET fl == {[n |-> f[1], k |-> f[2], so |-> f[3], dir |-> f[4], b |-> f[5], bad |-> f[6]] : f \in Rng(e.fl)}
      d == [ok |-> e.ok, fl |-> fl]
  IN Res([S EXCEPT !.disk = d,
            !.at = [a \in DOMAIN S.at |->
                      IF S.at[a].st = "run" \/ (S.at[a].st = "wait" /\ S.at[a].lone) THEN
                        [S.at[a] EXCEPT !.seen = @ \cup {<<f.k, f.b>> : f \in SelFiles(S, d)}]
                      ELSE S.at[a]]], {})

EvCall(S, e) ==
  LET lone == InFlight(S) = {} IN
  Res([S EXCEPT !.at = Put([a \in DOMAIN S.at |->
                              IF S.at[a].st \in {"wait", "run"} THEN [S.at[a] EXCEPT !.lone = FALSE] ELSE S.at[a]],
                           e.c, [NewAttempt(e) EXCEPT !.lone = lone, !.cnt0 = S.cnt,
                                                 !.seen = IF lone THEN {<<f.k, f.b>> : f \in SelFiles(S, S.disk)} ELSE {}])], {})

NewInst(e, a) == [b |-> e.b, a |-> a, rel |-> TRUE, ph |-> {}, fr |-> 0]

\* violations common to all events of a load
LoadEv(S, a) ==
       V({"C14"}, NotActive(S, a))
  \cup V({"C14", "C01"}, S.at[a].sw \/ S.at[a].st \notin {"wait", "run"})
  \cup V({"C17"}, Static(S) /\ S.at[a].op # "load")

EvOpen(S0, e) ==
  LET a == e.c
      S == Begin(S0, a)
      k == IF e.b = 0 THEN "" ELSE S.h.bl[e.b].k
      oldi == InstOf(S, Members(S, S.at[a].old), k)
      common ==
           LoadEv(S0, a)
      \cup V({"C19"}, e.orig)
      \cup V({"C19"}, e.b # 0 /\ e.pb # e.b)
      \cup V({"C11"}, e.b # 0 /\ k \notin SelKeys(S, a))
      \cup V({"C19"}, e.b # 0 /\ k \in SelKeys(S, a) /\ e.b \notin Seen(S, a, k))
      \cup V({"C06", "C11"}, e.b # 0 /\ k \in NewKeys(S, a))
      \cup V({"C10"}, e.b # 0 /\ oldi # 0 /\ k \in SelKeys(S, a) /\ MustKeep(S, a, oldi))
      \cup V({"C11"}, SelProblems(S, a) # {})
      \cup V({"C17"}, Static(S))
      \* real plugins: versions that the tool built can be loaded side by side
      \cup V({"C24"}, S.h.real /\ ~e.ok /\ e.b # 0 /\ ~\E i \in DOMAIN S.ins : S.ins[i].b = e.b)
      \* a file that is opened although it is not a plugin; its attempt has to fail
      S1 == IF e.ok
            THEN [S EXCEPT !.ins = Put(@, e.i, NewInst(e, a)), !.at = [@ EXCEPT ![a].new = @ \cup {e.i}]]
            ELSE [S EXCEPT !.at = [@ EXCEPT ![a].bad = @ \cup {"C01"}]]
  IN Res(S1, common)

Known(S, i) == i \in DOMAIN S.ins

\* a static plugin becomes an instance with the first call of one of its functions
Adopt(S, a, e) ==
  IF Known(S, e.i) THEN S
  ELSE [S EXCEPT !.ins = Put(@, e.i, NewInst(e, a)), !.at = [@ EXCEPT ![a].new = @ \cup {e.i}]]

SetPh(S, a, e, st, tags) ==
  [S EXCEPT !.ins = [@ EXCEPT ![e.i].ph = @ \cup {st} \cup V({"exported"}, st = "exp" /\ e.r = "ok")],
            !.at = [@ EXCEPT ![a].bad = IF e.r = "ok" THEN @ ELSE @ \cup tags \cup V({"C16"}, e.r = "panic"),
                             ![a].pan = @ \/ e.r = "panic"],
            !.npan = IF e.r = "panic" THEN @ + 1 ELSE @]

\* violations common to the five lifecycle functions
FuncEv(S, a, i, st) ==
       LoadEv(S, a)
  \cup V({"C06"}, S.at[a].bad # {})
  \cup V({"C20"}, Broken(S, Blob(S, i)))
  \cup V({"C06"}, S.ins[i].a # a)
  \cup V({"C06"}, st \in S.ins[i].ph)
  \cup V({"C03"}, S.ins[i].fr > 0)
  \cup V({"C06", "C15"}, S.at[a].cbs # <<>>)

EvRel(S0, e) ==
  LET a == e.c
      Sb == Begin(S0, a)
      S == Adopt(Sb, a, e)
      k == S.h.bl[e.b].k
  IN Res(SetPh([S EXCEPT !.ins = [@ EXCEPT ![e.i].rel = Blob(S, e.i).rel]], a, e, "rel", {"C06"}),
         FuncEv(S, a, e.i, "rel")
         \cup V({"C11", "C17"}, Static(S) /\ k \notin SelKeys(S, a))
         \cup V({"C11", "C06"}, Static(S) /\ k \in NewKeys(Sb, a)))

EvExp(S0, e) ==
  LET a == e.c
      S == Adopt(Begin(S0, a), a, e)
  IN Res(SetPh(S, a, e, "exp", {"C06"}),
         FuncEv(S, a, e.i, "exp") \cup V({"C06"}, "rel" \notin S.ins[e.i].ph))

EvImp(S0, e) ==
  LET a == e.c
      S == Adopt(Begin(S0, a), a, e)
  IN Res(SetPh(S, a, e, "imp", {"C06"}),
         FuncEv(S, a, e.i, "imp")
         \cup V({"C06"}, ~Stage(S, a, "exp") \/ ~AllOpen(S, a)))

EvOnLoad(S0, e) ==
  LET a == e.c
      S == Adopt(Begin(S0, a), a, e)
      mem == Mem(S, a)
      below == DepsBelow(S, mem, e.i) \cap S.at[a].new
  IN Res(SetPh([S EXCEPT !.at = [@ EXCEPT ![a].ld = Append(@, e.i)]], a, e, "onload", {"C06"}),
         FuncEv(S, a, e.i, "onload")
         \cup V({"C06"}, ~e.d)
         \cup V({"C06"}, ~Stage(S, a, "imp") \/ ~AllOpen(S, a))
         \cup V({"C06", "C09"}, AllOpen(S, a) /\ DepProblem(S, a))
         \cup V({"C07"}, \E j \in below \ {e.i} : "onload" \notin S.ins[j].ph))

\* what a vault shows
VaultViol(S, e, mem) ==
       V({"C12"}, {<<x[1], x[2]>> : x \in Rng(e.lf)} # LF(S, mem))
  \cup V({"C12"}, {<<x[1], x[2]>> : x \in Rng(e.lt)} # LT(S, mem))
  \cup V({"C12"}, (e.ext > 0) # S.h.ext \/ e.ext < 0)

EvOnInit(S0, e) ==
  LET a == e.c
      S == Adopt(Begin(S0, a), a, e)
      mem == Mem(S, a)
      below == DepsBelow(S, mem, e.i) \cap S.at[a].new
      S1 == [S EXCEPT !.vps = Put(@, e.vp, a), !.exts = IF e.ext > 0 THEN Put(@, e.ext, a) ELSE @,
                      !.at = [@ EXCEPT ![a].vp = e.vp]]
  IN Res(SetPh(S1, a, e, "oninit", {"C06"}),
         FuncEv(S, a, e.i, "oninit")
         \cup V({"C06"}, ~Stage(S, a, "onload") \/ ~AllOpen(S, a))
         \cup V({"C06", "C12"}, LiveProblem(S, mem))
         \cup V({"C07"}, \E j \in below \ {e.i} : "oninit" \notin S.ins[j].ph)
         \cup VaultViol(S, e, mem)
         \cup V({"C06", "C12"}, (S.at[a].vp # 0 /\ S.at[a].vp # e.vp) \/ (e.vp \in DOMAIN S.vps /\ S.vps[e.vp] # a))
         \cup V({"C12"}, e.ext > 0 /\ e.ext \in DOMAIN S.exts /\ S.exts[e.ext] # a)
         \cup V({"C12"}, Rng(e.bag) # {i \in S.at[a].new : "oninit" \in S.ins[i].ph}))

\* HotswapLiveFuncs and HotswapLiveTypes: may be called any number of times while tables are built
EvLive(S0, e) ==
  LET a == e.c
      S == Adopt(Begin(S0, a), a, e)
  IN Res([S EXCEPT !.at = [@ EXCEPT ![a].bad = IF e.r = "ok" THEN @
                                           ELSE @ \cup {"C12"} \cup V({"C16"}, e.r = "panic")],
                        !.npan = IF e.r = "panic" THEN @ + 1 ELSE @],
              LoadEv(S0, a) \cup V({"C20"}, Broken(S, Blob(S, e.i))) \cup V({"C03"}, S.ins[e.i].fr > 0))

EvOnFree(S, e) ==
  IF ~Known(S, e.i) THEN Res(S, {"C03"}) ELSE
  LET i == e.i
      a == S.ins[i].a
      c == e.c
      S1 == [S EXCEPT !.ins = [@ EXCEPT ![i].fr = @ + 1],
                      !.logd = IF e.r = "panic" THEN @ + 1 ELSE @,
                      !.npan = IF e.r = "panic" THEN @ + 1 ELSE @]
      \* managers in which i's dependencies were resolved
      mems == {S.mg[m].mem : m \in Holders(S, i)}
              \cup {Mem(S, b) : b \in {b \in InFlight(S) : i \in S.at[b].new /\ ~S.at[b].sw /\ S.at[b].ld # <<>>}}
  IN Res(S1,
         V({"C03"}, S.ins[i].fr > 0)
    \cup V({"C20"}, Broken(S, Blob(S, i)))
    \cup V({"C03"}, HeldByCurrent(S, i))
    \cup V({"C01"}, HeldByCurrent(S, i) /\ c # 0)
    \cup V({"C03", "C05"}, HeldByRetiring(S, i))
    \cup V({"C03"}, HeldByBuild(S, i))
    \cup V({"C14"}, c # 0 /\ c # S.act)
    \cup V({"C07"}, \E mem \in mems : \E j \in mem :
                       /\ j # i /\ S.ins[j].fr = 0
                       /\ KeyOf(S, i) \in DepKeys(Blob(S, j))))

EvCb(S0, e) ==
  LET a == e.c
      S == Begin(S0, a)
      A == S.at[a]
      n == Len(A.cbs)
      exp == ExpectedCbs(S, a)
      old == IF Static(S) THEN 0 ELSE A.old
      S1 == [S EXCEPT !.at = [@ EXCEPT ![a].cbs = Append(@, e.w),
                                       ![a].mgr = IF @ = 0 THEN e.new ELSE @,
                                       ![a].bad = IF e.r = "ok" THEN @
                                                  ELSE @ \cup {"C15"} \cup V({"C16"}, e.r = "panic")],
                      !.npan = IF e.r = "panic" THEN @ + 1 ELSE @]
  IN Res(S1,
         LoadEv(S0, a)
    \cup V({"C15"}, FailedBy(S, a) \/ Causes(S, a) # {})
    \cup V({"C15"}, n + 1 > Len(exp) \/ (n + 1 <= Len(exp) /\ exp[n + 1] # e.w))
    \cup V({"C15", "C06"}, ~Complete(S, a))
    \cup V({"C15"}, e.new = 0 \/ e.new = S.cur \/ (A.mgr # 0 /\ A.mgr # e.new))
    \cup V({"C15"}, \E b \in DOMAIN S.at : b # a /\ S.at[b].mgr = e.new)
    \cup V({"C15"}, e.old # old)
    \cup V({"C14", "C15"}, A.old # S.cur)
    \cup V({"C15", "C02"}, e.cur = e.new))

\* the details a successful load has to return: lower-case names with a note
NoteOf(S, a, i) ==
  IF Static(S) \/ i \in S.at[a].new THEN "ok"
  ELSE IF ~S.ins[i].rel THEN "not reloadable" ELSE "unchanged"
Details(S, a) ==
  IF Vacuous(S, a) THEN {}
  ELSE IF Static(S) THEN {<<s.kl, "ok">> : s \in SelStatics(S)}
  ELSE {<<KeyOf(S, i), NoteOf(S, a, i)>> : i \in Mem(S, a)}

MissingNames(S, a) ==
  IF Static(S) THEN
    LET bs == {s \in SelStatics(S) : Broken(S, S.h.bl[s.b])} IN
    IF Cardinality(bs) = 1 THEN UNION {Rng(S.h.bl[s.b].miss) : s \in bs} ELSE {}
  ELSE UNION {IF Rng(Blob(S, i).mist) = {} THEN Rng(Blob(S, i).miss) ELSE {} : i \in S.at[a].new}

EvRet(Sx, e) ==
  LET a == e.c
      S0 == IF e.ok THEN Exchange(Sx, a) ELSE Sx
      S == IF Static(S0) /\ S0.at[a].op # "load" THEN S0 ELSE Begin(S0, a)
      A == S.at[a]
      causes == Causes(S, a)
      eventless == ~S0.at[a].begun
      \* an attempt without any event that overlapped others: what it saw is not known
      unclear == eventless /\ ~A.lone
      reloaded == e.ok /\ A.op # "load"
      cnt == S.cnt + (IF reloaded THEN 1 ELSE 0)
      others == {b \in InFlight(S) \ {a} : S.at[b].op # "load"}
      st == IF e.ok THEN "ok" ELSE "err"
      S1 == [S EXCEPT !.at = [@ EXCEPT ![a].st = st], !.cnt = cnt, !.nfail = IF e.ok THEN @ ELSE @ + 1,
                      !.act = S0.act]
      okViol ==
           (IF unclear THEN {} ELSE causes)
      \cup V({"C02", "C11"}, ~unclear /\ causes = {} /\ ~Vacuous(S, a) /\ ~A.sw)
      \cup V({"C06"}, ~unclear /\ causes = {} /\ ~Vacuous(S, a) /\ ~Complete(S, a))
      \cup V({"C10", "C11"}, ~unclear /\ causes = {} /\ ~Vacuous(S, a) /\ ~AllOpen(S, a))
      \cup V({"C15"}, ~unclear /\ causes = {} /\ ~Vacuous(S, a) /\ ~AllCbs(S, a))
      \cup V({"C10"}, ~unclear /\ causes = {} /\ {<<d[1], d[2]>> : d \in Rng(e.det)} # Details(S, a))
      \cup V({"C10"}, Cardinality(Rng(e.det)) # Len(e.det))
      \cup V({"C10"}, Len(e.txt) # Len(e.det) \/ {<<d[1], d[2]>> : d \in Rng(e.txt)} # {<<d[1], d[2]>> : d \in Rng(e.det)})
      errViol ==
           V({"C01"}, A.sw)
      \* a load that fails for no reason
      \cup V({"C09", "C11", "C15", "C20"} \cup V({"C12"}, A.ld # <<>>)
              \cup V({"C01"}, S.nfail > 0) \cup V({"C16"}, S.npan > 0)
              \cup V({"C06"}, Complete(S, a)) \cup V({"C10"}, A.old # 0) \cup V({"C19"}, A.begun /\ A.new # {}),
             ~unclear /\ causes = {})
      \cup V({"C14"}, unclear /\ causes = {} /\ ~A.may)
      \cup V({"C04"}, \E i \in A.new : "exported" \in S.ins[i].ph /\ S.ins[i].fr = 0)
      \cup V({"C20"}, ~(MissingNames(S, a) \subseteq Rng(e.miss)) /\ A.begun /\ A.bad = {} /\ SelProblems(S, a) = {})
  IN Res(S1,
         V({"C16"}, e.pan)
    \cup V({"C19"}, ~e.intact)
    \cup V({"C14"} \cup V({"C01"}, ~e.ok), e.cnt < (IF A.lone THEN cnt ELSE A.cnt0 + (IF reloaded THEN 1 ELSE 0)) \/ e.cnt > cnt + Cardinality(others))
    \cup (IF e.ok THEN okViol ELSE errViol))

-----------------------------------------------------------------------------
(* InvokeEach *)

EvInvS(S, e) ==
  Res([S EXCEPT !.inv = Put(@, e.k, [m |-> e.m, fwd |-> e.fwd, seq |-> <<>>, bad |-> 0, errs |-> e.errs])], {})

EvInv(S, e) ==
  IF e.k \notin DOMAIN S.inv THEN Res(S, {"C13"})
  ELSE LET I == S.inv[e.k]
           mem == Members(S, I.m)
           deps == DepsBelow(S, mem, e.i)
           done == Rng(I.seq)
       IN Res([S EXCEPT !.inv = [@ EXCEPT ![e.k].seq = Append(@, e.i), ![e.k].bad = IF e.r = "ok" THEN @ ELSE @ + 1],
                        !.logd = IF e.r = "ok" THEN @ ELSE @ + 1,
                        !.npan = IF e.r = "panic" THEN @ + 1 ELSE @],
              V({"C13"}, e.i \notin mem \/ e.i \in done \/ ~e.argok)
         \cup V({"C07"}, e.i \in mem /\ I.fwd /\ ~((deps \ {e.i}) \subseteq done))
         \cup V({"C07"}, e.i \in mem /\ ~I.fwd /\ (deps \ {e.i}) \cap done # {}))

EvInvE(S, e) ==
  LET I == S.inv[e.k] IN
  Res(S,
      V({"C13"}, Rng(I.seq) # Members(S, I.m))
 \cup V({"C13", "C16"}, e.pan)
 \cup V({"C13", "C16"}, e.errs - I.errs < I.bad))

-----------------------------------------------------------------------------
(* A look at a manager. *)

EvSnap(S, e) ==
  IF e.m \notin DOMAIN S.mg THEN Res(S, {})   \* never published: nothing is promised about it
  ELSE
  LET M == S.mg[e.m]
      mem == M.mem
      a == M.at
      pl == e.pl
      ord == [x \in DOMAIN pl |-> pl[x].i]
      keys == {KeyOf(S, i) : i \in mem}
      content == <<ord, {<<x[1], x[2]>> : x \in Rng(e.lf)}, {<<x[1], x[2]>> : x \in Rng(e.lt)}, e.ext,
                   [x \in DOMAIN pl |-> <<pl[x].wire, pl[x].deps, pl[x].n, pl[x].attr>>], {<<x[1], x[2]>> : x \in Rng(e.find)}>>
      known(x) == pl[x].i \in mem
      S1 == [S EXCEPT !.mg = [@ EXCEPT ![e.m].ord = ord, ![e.m].snap = content, ![e.m].nf = S.nfail]]
  IN Res(S1,
         \* what it shows does not change
         V({"C02"} \cup V({"C01"}, S.nfail > M.nf), M.snap # <<>> /\ M.snap # content)
    \cup V({"C07"}, Len(ord) # Cardinality(mem) \/ Rng(ord) # mem)
    \cup V({"C11", "C02"}, Rng(ord) # mem \/ {pl[x].n : x \in DOMAIN pl} # keys)
    \cup V({"C10"}, Rng(ord) # mem)
    \cup V({"C07"}, Rng(ord) = mem /\ ~InOrder(S, mem, ord))
    \cup V({"C11"}, \E q \in Rng(e.find) : q[2] # InstOf(S, mem, q[1]))
    \cup V({"C08"}, \E x \in DOMAIN pl : known(x) /\ Rng(pl[x].deps) # DepKeys(Blob(S, pl[x].i)))
    \cup V({"C08"}, \E x \in DOMAIN pl : known(x) /\
                \E y \in Fields(Blob(S, pl[x].i)) :
                   \A w \in Rng(pl[x].wire) : ~(w[1] = y.f /\ w[2] = WireOf(S, mem, pl[x].i, y)))
    \cup V({"C19"}, ~Static(S) /\ \E x \in DOMAIN pl : known(x) /\ ~pl[x].sha)
    \cup VaultViol(S, e, mem)
    \cup V({"C06", "C12"}, S.at[a].vp # 0 /\ S.at[a].vp # e.vp)
    \cup V({"C12"}, e.ext > 0 /\ e.ext \in DOMAIN S.exts /\ S.exts[e.ext] # a))

-----------------------------------------------------------------------------
(* Time has passed and everything that was due has happened. *)

Overdue(S, i) ==
  /\ ~Static(S)
  /\ S.ins[i].fr = 0
  /\ Holders(S, i) # {}
  /\ \A m \in Holders(S, i) : m # S.cur /\ S.t >= S.mg[m].sup + Delay(S) + Slack
  /\ ~HeldByBuild(S, i)
  /\ \A a \in InFlight(S) : ~S.at[a].begun \/ i \notin Kept(S, a)

EvSettle(S, e) ==
  LET others == {b \in InFlight(S) : S.at[b].op # "load"} IN
  Res(S,
      V({"C04", "C05"}, ~e.heldt /\ \E i \in DOMAIN S.ins : Overdue(S, i))
 \cup V({"C16", "C13"}, ~e.heldt /\ e.errs < S.logd)
 \cup V({"C14"}, e.cnt < S.cnt \/ e.cnt > S.cnt + Cardinality(others)))

-----------------------------------------------------------------------------
(* The process died or a call never came back. *)

EvHung(S, e) ==
  Res(S, V({"C02"}, e.in = "current")
    \cup V({"C16"}, S.npan > 0)
    \cup V({"C01"}, S.nfail > 0)
    \cup V({"C14"}, S.npan = 0 /\ S.nfail = 0)
    \* stuck between the last Import and the first OnLoad, where the dependencies are resolved
    \cup V({"C09"}, \E a \in InFlight(S) : /\ S.at[a].begun /\ S.at[a].bad = {}
                                            /\ \/ Cyclic(S, Mem(S, a))
                                               \/ AllOpen(S, a) /\ Stage(S, a, "imp") /\ S.at[a].ld = <<>>))
\* Two goroutines touched the same thing without synchronisation, at least one of them in the code under test: what the
\* specification takes for one step is not one.
EvRace(S, e) == Res(S, {"C02", "C03", "C14"})

EvCrash(S, e) ==
  Res(S, {"C16"} \cup V({"C13"}, S.inv # Empty) \cup V({"C04"}, e.g = "timer"))

OfCall == {"open", "rel", "exp", "imp", "onload", "oninit", "lf", "lt", "cb", "ret"}

Dispatch(S, e) ==
  IF e.e \in OfCall /\ e.c \notin DOMAIN S.at THEN Res(S, {}) ELSE
  CASE e.e = "fs"     -> EvFs(S, e)
    [] e.e = "call"   -> EvCall(S, e)
    [] e.e = "open"   -> EvOpen(S, e)
    [] e.e = "rel"    -> EvRel(S, e)
    [] e.e = "exp"    -> EvExp(S, e)
    [] e.e = "imp"    -> EvImp(S, e)
    [] e.e = "onload" -> EvOnLoad(S, e)
    [] e.e = "oninit" -> EvOnInit(S, e)
    [] e.e \in {"lf", "lt"} -> EvLive(S, e)
    [] e.e = "onfree" -> EvOnFree(S, e)
    [] e.e = "cb"     -> EvCb(S, e)
    [] e.e = "race"   -> EvRace(S, e)
    [] e.e = "ret"    -> EvRet(S, e)
    [] e.e = "invs"   -> EvInvS(S, e)
    [] e.e = "inv"    -> EvInv(S, e)
    [] e.e = "inve"   -> EvInvE(S, e)
    [] e.e = "snap"   -> EvSnap(S, e)
    [] e.e = "settle" -> EvSettle(S, e)
    [] e.e = "hung"   -> EvHung(S, e)
    [] e.e = "crash"  -> EvCrash(S, e)
    [] OTHER          -> Res(S, {})

\* what was seen of the current manager at the event
Sync(S, e) ==
  IF e.cur = S.cur \/ e.cur < 0 THEN Res(S, {})
  ELSE IF e.cur = 0 \/ e.cur \in DOMAIN S.mg
       THEN Res([S EXCEPT !.cur = e.cur], {"C01", "C02", "C14"})    \* an earlier manager again
  ELSE LET ps == Publishers(S, e.cur, e) IN
       IF ps = {}
       THEN Res([S EXCEPT !.mg = Put(@, e.cur, [mem |-> {}, at |-> 0, sup |-> -1, ord |-> <<>>, snap |-> <<>>, nf |-> 0]),
                          !.cur = e.cur], {"C01", "C02"})
       ELSE LET a == CHOOSE x \in ps : TRUE
                S0 == IF S.at[a].begun THEN S ELSE [S EXCEPT !.at = [@ EXCEPT ![a].q = ~S.at[a].lone]]
                S1 == Begin(S0, a)
            IN Res(Publish(S1, a, e.cur), PublishViol(S1, a, e.cur))

\* The reload counter as it was seen at an event (ret events tell of it separately): all reloads that have returned, and of
\* those in flight only ones that may have succeeded. The one the event belongs to is not done yet.
Counter(S, e) ==
  IF "rc" \notin DOMAIN e \/ e.e = "ret" \/ e.rc < 0 THEN {}
  ELSE LET done == {b \in InFlight(S) : b # e.c /\ S.at[b].op # "load" /\ ~Static(S) /\ (S.at[b].sw \/ ~S.at[b].lone)}
       IN V({"C14"} \cup V({"C01"}, e.rc > S.cnt), e.rc < S.cnt \/ e.rc > S.cnt + Cardinality(done))

\* Attempts without any event yet: had they looked now, would they have to fail? It is asked whenever what they look at
\* may have changed.
Outlook(S, e, cur) ==
  LET ws == {b \in InFlight(S) : ~S.at[b].begun /\ ~S.at[b].may} IN
  IF ws = {} \/ (e.e \notin {"call", "fs"} /\ S.cur = cur) THEN S
  ELSE [S EXCEPT !.at = [b \in DOMAIN @ |-> IF b \in ws THEN [@[b] EXCEPT !.may = Causes(Begin(S, b), b) # {}] ELSE @[b]]]

Proc(S, e) ==
  LET S0 == IF e.t < 0 THEN S ELSE [S EXCEPT !.t = e.t]
      r1 == Sync(S0, e)
      r2 == Dispatch(Outlook(r1.s, e, S.cur), e)
      v  == r1.v \cup r2.v \cup Counter(r1.s, e)
  IN Res(Outlook(r2.s, e, r2.s.cur), v \cup V({"C17"}, Static(S) /\ v # {}))

-----------------------------------------------------------------------------
(* State invariants, stated without reference to how events are judged.     *)

\* C02/C06: only finished instances are visible
InvVisible(S) == \A m \in DOMAIN S.mg : \A i \in S.mg[m].mem : {"rel", "exp", "imp", "onload", "oninit"} \subseteq S.ins[i].ph
\* C03: at most once, never while in use
InvFreeOnce(S) == \A i \in DOMAIN S.ins : S.ins[i].fr <= 1
InvInUse(S) == \A i \in Members(S, S.cur) : S.ins[i].fr = 0
InvRetiring(S) == \A m \in DOMAIN S.mg : (m # S.cur /\ S.t < S.mg[m].sup + Delay(S)) => \A i \in S.mg[m].mem : S.ins[i].fr = 0
\* C11: one instance per name
InvNames(S) == \A m \in DOMAIN S.mg : \A i, j \in S.mg[m].mem : KeyOf(S, i) = KeyOf(S, j) => i = j
\* C09/C07: published managers are closed and acyclic, non-reloadable plugins rest on non-reloadable ones
InvClosed(S) == \A m \in DOMAIN S.mg : \A i \in S.mg[m].mem : \A k \in DepKeys(Blob(S, i)) :
                   \E j \in S.mg[m].mem : KeyOf(S, j) = k /\ (S.ins[j].rel => S.ins[i].rel)
InvAcyclic(S) == \A m \in DOMAIN S.mg : ~Cyclic(S, S.mg[m].mem)
\* C08: an instance that depends on another is never older than it is in use: it was wired to that very instance
InvWired(S) == \A m \in DOMAIN S.mg : \A i \in S.mg[m].mem : \A j \in S.mg[m].mem :
                   KeyOf(S, j) \in DepKeys(Blob(S, i)) => S.ins[j].a <= S.ins[i].a
\* C12: live names are unique
InvLive(S) == \A m \in DOMAIN S.mg : ~Clash(LF(S, S.mg[m].mem)) /\ ~Clash(LT(S, S.mg[m].mem))
\* C20
InvContract(S) == \A m \in DOMAIN S.mg : \A i \in S.mg[m].mem : ~Broken(S, Blob(S, i))
\* C10: the instance kept for a non-reloadable plugin is never replaced while its file stays

InvViol(T) ==
       V({"C02", "C06"}, ~InvVisible(T))
  \cup V({"C03"}, ~InvFreeOnce(T) \/ ~InvInUse(T))
  \cup V({"C03", "C05"}, ~InvRetiring(T))
  \cup V({"C11"}, ~InvNames(T))
  \cup V({"C09"}, ~InvClosed(T) \/ ~InvAcyclic(T))
  \cup V({"C08"}, ~InvWired(T))
  \cup V({"C12"}, ~InvLive(T))
  \cup V({"C20"}, ~InvContract(T))
=============================================================================
