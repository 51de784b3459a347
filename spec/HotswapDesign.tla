--------------------------- MODULE HotswapDesign ---------------------------
(***************************************************************************)
(* The design of the plugin manager, step by step: clients queue up for the *)
(* swapper's mutex; a load looks at the directory, decides what is kept,    *)
(* opens the rest, exports, imports and wires it, calls OnLoad, fills the   *)
(* live tables, calls OnInit and the callbacks, becomes current and leaves  *)
(* the old manager to a timer; a failure gives back what was taken. Kept    *)
(* instances are shared through reference counts.                           *)
(*                                                                          *)
(* Every step that can be seen from outside is fed, as an event, to Proc of *)
(* HotswapCore. So the model checker decides for every interleaving, fault  *)
(* and history within the bounds of a configuration that this design has    *)
(* the properties (viol stays empty, and so do the invariants), and, with   *)
(* Mut naming a flaw to build in, that the flaw is noticed.                 *)
(*                                                                          *)
(* The histories explored here are also what the real code is then made to  *)
(* go through: `log` is written in the language of the test harness.        *)
(***************************************************************************)
EXTENDS HotswapCore, Json, IOUtils
SE == INSTANCE SequencesExt
SetToSeq(s) == SE!SetToSeq(s)
Reverse(s) == [x \in DOMAIN s |-> s[Len(s) + 1 - x]]

C == JsonDeserialize(IOEnv.DESIGN)
H == C.hdr
Mut == C.mut
Turns == C.turns          \* clients take turns: no step of another client or timer while a call runs
Held  == C.held           \* timers may be late (they are released by the schedule)

VARIABLES S, viol, D, log
vars == <<S, viol, D, log>>

-----------------------------------------------------------------------------
Fault(b, st) == LET f == C.blobs[b].fault IN IF st \in DOMAIN f THEN f[st] ELSE "ok"
B(b) == H.bl[b]
Bi(d, i) == d.ins[i]                          \* blob of an instance

D0 == [disk |-> Empty,     \* file base name -> blob
       lock |-> 0,         \* call that holds the mutex
       run  |-> Empty,     \* call -> what it is doing
       who  |-> [x \in Rng(C.callers) |-> 0],
       ins  |-> Empty,     \* instance -> blob
       refs |-> Empty,     \* instance -> reference count
       done |-> {},        \* instances that OnFree has been called for
       wire |-> Empty,     \* instance -> {<<field, instance>>}
       mm   |-> Empty,     \* manager -> [pm, ord, vp, ext, lf, lt]
       cur  |-> 0,
       tm   |-> {},        \* retirements: [m, due, rest]
       t |-> 0, tgt |-> -1,
       nC |-> 0, nI |-> 0, nM |-> 0, nK |-> 0, cnt |-> 0, errs |-> 0,
       nFs |-> 0, chg |-> 0, nInv |-> 0, fresh |-> TRUE, fin |-> FALSE]

\* what is seen of the system with each event
Seal(d, e) == e @@ [cur |-> d.cur, t |-> d.t, g |-> "x",
                    rc |-> IF Mut # "counter-moves-early" THEN d.cnt ELSE d.cnt + Cardinality({c \in DOMAIN d.run : d.run[c].op # "load"})]

Checked(T) == InvViol(T)

\* feeds the sequence es of events
RECURSIVE Feed(_, _)
Feed(T, es) ==
  IF es = <<>> THEN Res(T, {})
  ELSE LET p == Proc(T, Head(es))
           q == Feed(p.s, Tail(es))
       IN Res(q.s, p.v \cup q.v)

\* (what is bound is evaluated once, what LET defines is not)
Take(d, es, steps) ==
  \E x \in {es} : \E p \in {Feed(S, x)} :
     /\ S' = p.s
     /\ viol' = viol \cup p.v \cup (IF x = <<>> THEN {} ELSE Checked(p.s))
     /\ D' = d
     /\ log' = log \o steps

-----------------------------------------------------------------------------
(* A load. Each operator yields a set of [d: new state, e: events]. *)

Out(d, es) == {[d |-> d, e |-> es]}
Set(d, c, L) == [d EXCEPT !.run = Put(@, c, L)]

Selected(d) == {n \in DOMAIN d.disk : d.disk[n] # -9 /\ (Rng(H.wl) # {} => n \in Rng(H.wl))}

MgrPm(d) == IF d.cur = 0 THEN Empty ELSE d.mm[d.cur].pm

RECURSIVE Topo(_, _, _)
\* keys of pm so that dependencies come first
Topo(pm, dep, acc) ==
  LET left == DOMAIN pm \ Rng(acc)
      free == {k \in left : dep[k] \cap left = {}}
  IN IF left = {} THEN acc
     ELSE IF free = {} THEN acc \o SetToSeq(left)
     ELSE Topo(pm, dep, acc \o SetToSeq(free))

Deps(b) == IF Mut = "no-nil-deps" THEN {x.d : x \in {y \in Fields(b) : IsDep(y)}} ELSE DepKeys(b)
DepsOf(d, pm) == [k \in DOMAIN pm |-> DepKeys(B(Bi(d, pm[k])))]
CyclicPm(d, pm) == LET dm == DepsOf(d, pm) IN Strip(DOMAIN dm, dm) # {}

\* static linking: the selected plugins are given, none is kept and nothing is left to a timer
BeginStatic(d, c) ==
  LET L == d.run[c]
      sel == {s \in Rng(H.st) : Rng(H.wl) # {} => s.k \in Rng(H.wl)}
      bad == \/ \E w \in Rng(H.wl) : ~\E s \in sel : s.k = w
             \/ Cardinality({s.key : s \in sel}) # Cardinality(sel)
  IN Set([d EXCEPT !.lock = c], c,
         IF bad /\ Mut # "statics-unchecked" THEN [L EXCEPT !.pc = "ret", !.ok = FALSE]
         ELSE [L EXCEPT !.pc = "open", !.old = 0, !.todo = SetToSeq({<<s.key, s.b>> : s \in sel}), !.mgr = 0])

BeginDyn(d, c) ==
  LET L == d.run[c]
      names == Selected(d)
      keyof(n) == C.key[n]
      keys == {keyof(n) : n \in names}
      fileOf(k) == CHOOSE n \in names : keyof(n) = k
      old == MgrPm(d)
      bad == \/ \E w \in Rng(H.wl) : w \notin names
             \/ Cardinality(keys) # Cardinality(names) /\ Mut # "names-clash-unnoticed"
      same(k) == B(Bi(d, old[k])) = B(Max(1, d.disk[fileOf(k)])) /\ d.disk[fileOf(k)] > 0 /\ d.disk[fileOf(k)] = Bi(d, old[k])
      kept == {k \in keys \cap DOMAIN old :
                 \/ ~B(Bi(d, old[k])).rel /\ Mut # "non-reloadable-reloaded"
                 \/ same(k) /\ Mut # "unchanged-reloaded"
                 \/ Mut = "changed-kept"}
      keptI == {old[k] : k \in kept}
      L1 == [L EXCEPT !.pc = "open", !.old = d.cur, !.pm = [k \in kept |-> old[k]],
                      !.todo = SetToSeq({<<k, d.disk[fileOf(k)]>> : k \in keys \ kept}), !.mgr = 0]
      d1 == [d EXCEPT !.lock = c, !.refs = [i \in DOMAIN @ |-> IF i \in keptI /\ Mut # "kept-not-counted" THEN @[i] + 1 ELSE @[i]]]
  IN IF bad THEN Set([d EXCEPT !.lock = c], c, [L EXCEPT !.pc = "ret", !.ok = FALSE])
     ELSE IF names = {} THEN Set([d EXCEPT !.lock = c], c, [L EXCEPT !.pc = "ret", !.ok = TRUE, !.vac = TRUE])
     ELSE Set(d1, c, L1)

BeginLoad(d, c) == IF Static(S) THEN BeginStatic(d, c) ELSE BeginDyn(d, c)

\* what failed is given back: what exported, in reverse order once there is one
Fail(L) == [L EXCEPT !.pc = "free", !.ok = FALSE,
                     !.rest = IF L.ord # <<>> THEN Reverse(L.ord) ELSE SetToSeq({L.pm[k] : k \in DOMAIN L.pm})]
Failing(d, c, L) == Set(d, c, IF Mut = "failure-leaks" THEN [L EXCEPT !.pc = "ret", !.ok = FALSE]
                              ELSE IF Mut = "failure-frees-kept" THEN [Fail(L) EXCEPT !.force = TRUE]
                              ELSE IF Mut = "failure-frees-new-only"
                                   THEN [Fail(L) EXCEPT !.rest = SelectSeq(@, LAMBDA i : i \in L.new)]
                              ELSE Fail(L))

\* the next instance of the given ones that has not got to stage st yet
Next1(L, seq) == LET is == {x \in DOMAIN seq : seq[x] \in L.new /\ seq[x] \notin L.past}
                 IN IF is = {} THEN 0 ELSE seq[CHOOSE x \in is : \A y \in is : x <= y]

SortedPm(L) == SetToSeq({L.pm[k] : k \in DOMAIN L.pm})

LFof(d, mem) == UNION {{<<k, i>> : k \in Rng(B(Bi(d, i)).lf)} : i \in mem}
LTof(d, mem) == UNION {{<<k, i>> : k \in Rng(B(Bi(d, i)).lt)} : i \in mem}
PmSet(L) == {L.pm[k] : k \in DOMAIN L.pm}

VaultOf(d, L) == [lf |-> SetToSeq(LFof(d, PmSet(L))), lt |-> SetToSeq(LTof(d, PmSet(L))), ext |-> IF H.ext THEN L.mgr ELSE 0]

\* dependency resolution of one instance
Unresolved(d, L, i) ==
  LET b == B(Bi(d, i)) IN
  \/ b.impk \in {"nonptr", "ptrint"}
  \/ \E x \in Fields(b) : IsDep(x) /\
       \/ x.k = "anon"
       \/ x.d \notin DOMAIN L.pm
       \/ LET o == B(Bi(d, L.pm[x.d])) IN
          \/ ~b.rel /\ o.rel /\ Mut # "non-reloadable-on-reloadable"
          \/ ~ExportsNil(o) /\ ~Assignable(o.exp, x.k)
Wiring(d, L, i) == LET b == B(Bi(d, i)) IN
  {<<x.f, IF ~IsDep(x) THEN -1
          ELSE IF ExportsNil(B(Bi(d, L.pm[x.d]))) THEN -1 ELSE L.pm[x.d]>> : x \in Fields(b)}

StepsOf(d, c) ==
  LET L == d.run[c]
      cl == [c |-> c] IN
  CASE L.pc = "lock" /\ Static(S) /\ L.op # "load" /\ Mut # "static-reloads" ->
         Out(Set(d, c, [L EXCEPT !.pc = "ret", !.ok = FALSE]), <<>>)
    [] L.pc = "lock" ->
         IF d.lock = 0 \/ Mut = "no-mutex" THEN Out(BeginLoad(d, c), <<>>)
         ELSE IF Mut = "busy-refused" THEN Out(Set(d, c, [L EXCEPT !.pc = "ret", !.ok = FALSE]), <<>>) ELSE {}
    [] L.pc = "open" /\ L.todo = <<>> ->
         Out(Set(d, c, [L EXCEPT !.pc = "imp", !.past = {}]), <<>>)
    [] L.pc = "open" /\ Static(S) ->
         LET b == Head(L.todo)[2]
             i == d.nI + 1
         IN Out(IF Rng(B(b).miss) # {} /\ Mut # "broken-accepted" THEN Failing(d, c, [L EXCEPT !.missing = Rng(B(b).miss)])
                ELSE Set([d EXCEPT !.nI = i, !.ins = Put(@, i, b), !.refs = Put(@, i, 1)], c,
                         [L EXCEPT !.todo = Tail(@), !.new = @ \cup {i}, !.ci = i, !.pc = "rel"]), <<>>)
    [] L.pc = "open" ->
         LET k == Head(L.todo)[1]
             b == Head(L.todo)[2]
             i == d.nI + 1
             r == IF b <= 0 THEN "err" ELSE C.blobs[b].open
             e == cl @@ [e |-> "open", b |-> Max(0, b), pb |-> b, orig |-> FALSE, p |-> 1, i |-> i, ok |-> TRUE]
         IN IF r # "ok"
            THEN Out(Failing(d, c, L), <<Seal(d, [e EXCEPT !.i = 0, !.ok = FALSE])>>)
            ELSE LET d1 == [d EXCEPT !.nI = i, !.ins = Put(@, i, b), !.refs = Put(@, i, 1)]
                     L1 == [L EXCEPT !.todo = Tail(@), !.new = @ \cup {i}, !.ci = i, !.pc = "rel"]
                     wrong == (Rng(B(b).miss) # {} \/ Rng(B(b).mist) # {}) /\ Mut # "broken-accepted"
                 IN Out(IF wrong THEN Failing(d1, c, L1) ELSE Set(d1, c, L1), <<Seal(d, e)>>)
    [] L.pc \in {"rel", "exp"} ->
         LET i == L.ci
             b == Bi(d, i)
             r == Fault(b, L.pc)
             e == cl @@ [e |-> L.pc, i |-> i, b |-> b, r |-> r]
             L1 == IF L.pc = "rel" THEN [L EXCEPT !.pc = "exp"]
                   ELSE [L EXCEPT !.pc = "open", !.pm = Put(@, B(b).k, i)]
         IN Out(IF r = "ok" THEN Set(d, c, L1) ELSE Failing(d, c, L), <<Seal(d, e)>>)
    [] L.pc = "imp" ->
         LET i == Next1(L, SortedPm(L)) IN
         IF i # 0 THEN
           LET b == Bi(d, i)
               r == Fault(b, "imp")
               e == cl @@ [e |-> "imp", i |-> i, b |-> b, r |-> r]
               L1 == [L EXCEPT !.past = @ \cup {i}]
           IN Out(IF r # "ok" \/ Unresolved(d, L, i) THEN Failing(d, c, L)
                  ELSE Set([d EXCEPT !.wire = Put(@, i, Wiring(d, L, i))], c, L1), <<Seal(d, e)>>)
         ELSE
           LET stale == \E k \in DOMAIN L.pm : /\ L.pm[k] \notin L.new
                                               /\ \E q \in DepKeys(B(Bi(d, L.pm[k]))) : q \notin DOMAIN L.pm \/ L.pm[q] \in L.new
               ord == LET o == Topo(L.pm, DepsOf(d, L.pm), <<>>) IN [x \in DOMAIN o |-> L.pm[o[x]]]
               L1 == [L EXCEPT !.pc = "onload", !.past = {},
                               !.ord = IF Mut = "order-reversed" THEN Reverse(ord) ELSE ord]
           IN Out(IF (CyclicPm(d, L.pm) /\ Mut # "cycles-unnoticed") \/ (stale /\ Mut # "rebuilt-unnoticed") THEN Failing(d, c, L)
                  ELSE Set(d, c, L1), <<>>)
    [] L.pc = "onload" ->
         LET i == Next1(L, L.ord) IN
         IF i = 0 THEN Out(Set(d, c, [L EXCEPT !.pc = "live", !.past = {}]), <<>>)
         ELSE LET b == Bi(d, i)
                  r == Fault(b, "onload")
                  e == cl @@ [e |-> "onload", i |-> i, b |-> b, r |-> r, d |-> TRUE]
              IN Out(IF r # "ok" /\ Mut # "onload-error-ignored" THEN Failing(d, c, L)
                     ELSE Set(d, c, [L EXCEPT !.past = @ \cup {i}]), <<Seal(d, e)>>)
    [] L.pc = "live" ->
         LET mem == PmSet(L)
             odd == {i \in mem : B(Bi(d, i)).lfk # "ok"}
             clash == Clash(LFof(d, mem)) \/ Clash(LTof(d, mem))
             L1 == [L EXCEPT !.pc = "oninit", !.mgr = d.nM + 1]
             d1 == [d EXCEPT !.nM = @ + 1, !.mm = Put(@, L1.mgr, [pm |-> L.pm, ord |-> L.ord])]
         IN IF odd # {} THEN LET i == CHOOSE x \in odd : TRUE IN
                 Out(Failing(d, c, L), <<Seal(d, cl @@ [e |-> "lf", i |-> i, b |-> Bi(d, i), r |-> B(Bi(d, i)).lfk])>>)
            ELSE IF clash /\ Mut # "clash-unnoticed" THEN Out(Failing(d, c, L), <<>>)
            ELSE IF Mut = "published-before-oninit"
                 THEN Out(Set([d1 EXCEPT !.cur = L1.mgr], c, L1), <<>>)
            ELSE Out(Set(d1, c, L1), <<>>)
    [] L.pc = "oninit" ->
         LET i == Next1(L, L.ord) IN
         IF i = 0 THEN Out(Set(d, c, [L EXCEPT !.pc = "cb", !.past = {}]), <<>>)
         ELSE LET b == Bi(d, i)
                  r == Fault(b, "oninit")
                  e == cl @@ [e |-> "oninit", i |-> i, b |-> b, r |-> r, vp |-> L.mgr, bag |-> SetToSeq(L.past)] @@ VaultOf(d, L)
              IN Out(IF r # "ok" THEN Failing(d, c, L)
                     ELSE Set(d, c, [L EXCEPT !.past = @ \cup {i}]), <<Seal(d, e)>>)
    [] L.pc = "cb" ->
         LET exp == (IF H.cb THEN <<1>> ELSE <<>>) \o (IF L.op = "reloadx" THEN <<2>> ELSE <<>>)
             n == L.ncb + 1 IN
         IF n > Len(exp) THEN Out(Set(d, c, [L EXCEPT !.pc = "pub"]), <<>>)
         ELSE LET w == exp[n]
                  r == IF w = 1 THEN L.cfg ELSE L.x
                  d1 == IF Mut = "published-before-callbacks" THEN [d EXCEPT !.cur = L.mgr] ELSE d
                  e == cl @@ [e |-> "cb", w |-> w, new |-> L.mgr, old |-> L.old, r |-> r]
              IN Out(IF r # "ok" /\ Mut # "callback-error-ignored" THEN Failing(d1, c, L)
                     ELSE Set(d1, c, [L EXCEPT !.ncb = n]), <<Seal(d1, e)>>)
    [] L.pc = "pub" ->
         LET delay == IF Mut = "delay-ignored" THEN MinDelay ELSE IF Mut = "no-least-delay" THEN Max(0, H.delay)
                      ELSE IF H.delay = -1 THEN DefaultDelay ELSE Max(MinDelay, H.delay)
             tm == IF L.old = 0 \/ Mut = "never-retired" THEN {}
                   ELSE {[m |-> L.old, due |-> d.t + delay, rest |-> Reverse(d.mm[L.old].ord)]}
         IN Out(Set([d EXCEPT !.cur = L.mgr, !.tm = @ \cup tm], c, [L EXCEPT !.pc = "ret", !.ok = TRUE]), <<>>)
    [] L.pc = "free" ->
         IF L.rest = <<>> THEN Out(Set(d, c, [L EXCEPT !.pc = "ret"]), <<>>)
         ELSE LET i == Head(L.rest)
                  n == d.refs[i] - 1
                  d1 == Set([d EXCEPT !.refs = [@ EXCEPT ![i] = n]], c, [L EXCEPT !.rest = Tail(@)])
                  r == Fault(Bi(d, i), "onfree")
              IN IF (n > 0 \/ i \in d.done) /\ ~L.force THEN Out(d1, <<>>)
                 ELSE Out([d1 EXCEPT !.done = @ \cup {i}, !.errs = IF r = "panic" THEN @ + 1 ELSE @],
                          <<Seal(d, cl @@ [e |-> "onfree", i |-> i, b |-> Bi(d, i), r |-> r])>>)
    [] L.pc = "ret" ->
         LET good == L.ok
             cnt == IF (good \/ Mut = "counter-counts-failures") /\ L.op # "load" THEN d.cnt + 1 ELSE d.cnt
             det == IF ~good \/ L.vac THEN {}
                    ELSE IF Static(S) THEN {<<s.kl, "ok">> : s \in {x \in Rng(H.st) : x.key \in DOMAIN L.pm}}
                    ELSE {<<k, IF L.pm[k] \in L.new THEN "ok"
                               ELSE IF ~B(Bi(d, L.pm[k])).rel THEN "not reloadable" ELSE "unchanged">> : k \in DOMAIN L.pm}
             miss == IF good THEN {} ELSE L.missing \cup UNION {Rng(B(Bi(d, i)).miss) : i \in L.new}
             d1 == [d EXCEPT !.lock = IF @ = c THEN 0 ELSE @, !.cnt = cnt, !.run = [x \in DOMAIN @ \ {c} |-> @[x]],
                             !.who = [@ EXCEPT ![L.cl] = 0]]
             e == cl @@ [e |-> "ret", ok |-> good, pan |-> FALSE, det |-> SetToSeq(det), txt |-> SetToSeq(det), miss |-> SetToSeq(miss),
                         intact |-> TRUE, cnt |-> cnt]
         IN Out(d1, <<Seal(d, e)>>)

\* a retirement
TimerSteps(d, x) ==
  IF x.rest = <<>> THEN Out([d EXCEPT !.tm = @ \ {x}], <<>>)
  ELSE LET i == Head(x.rest)
           n == d.refs[i] - 1
           d0 == [d EXCEPT !.t = Max(@, x.due)]
           d1 == [d0 EXCEPT !.refs = [@ EXCEPT ![i] = n], !.tm = (@ \ {x}) \cup {[x EXCEPT !.rest = Tail(@)]}]
           r == Fault(Bi(d, i), "onfree")
       IN IF (n > 0 \/ i \in d.done) /\ Mut # "retirement-ignores-counts" THEN Out(d1, <<>>)
          ELSE Out([d1 EXCEPT !.done = @ \cup {i}, !.errs = IF r = "panic" THEN @ + 1 ELSE @],
                   <<Seal(d1, [c |-> 0, e |-> "onfree", i |-> i, b |-> Bi(d, i), r |-> r])>>)

-----------------------------------------------------------------------------
(* What clients and the environment do. *)

Busy(d) == DOMAIN d.run # {}
\* the time up to which retirements are due now
Now(d) == IF d.tgt >= 0 THEN d.tgt ELSE d.t
DueSet(d) == {x \in d.tm : x.due <= Now(d)}
FirstDue(d) == {x \in DueSet(d) : \A y \in DueSet(d) : x.due <= y.due}
Urgent(d) == ~Held /\ DueSet(d) # {}

FsEvent(d) == Seal(d, [e |-> "fs", ok |-> TRUE, c |-> 0,
                fl |-> SetToSeq({<<n, C.key[n], TRUE, FALSE, Max(0, d.disk[n]), FALSE>> : n \in DOMAIN d.disk})])

NewRun(cl, o) == [cl |-> cl, op |-> o.k, cfg |-> o.cfg, x |-> o.x, pc |-> "lock", old |-> 0, pm |-> Empty, todo |-> <<>>, mgr |-> 0,
                  new |-> {}, ci |-> 0, past |-> {}, ord |-> <<>>, rest |-> <<>>, ok |-> FALSE, vac |-> FALSE, ncb |-> 0, force |-> FALSE, missing |-> {}]

Call ==
  /\ D.nC < C.maxcalls /\ D.tgt < 0 /\ ~Urgent(D) /\ (Turns => ~Busy(D))
  /\ \E cl \in Rng(C.callers) : \E o \in Rng(C.ops) :
       /\ D.who[cl] = 0
       \* callers are alike: the first idle one goes ahead
       /\ \A x \in DOMAIN C.callers : (\A y \in DOMAIN C.callers : C.callers[y] = cl => x < y) => D.who[C.callers[x]] # 0
       /\ LET c == D.nC + 1
              d == [Set(D, c, NewRun(cl, o)) EXCEPT !.nC = c, !.who = [@ EXCEPT ![cl] = c], !.nFs = 0, !.chg = 0, !.fresh = TRUE]
          IN Take(d, <<Seal(D, [e |-> "call", c |-> c, op |-> o.k, cfg |-> o.cfg, x |-> o.x])>>,
                  <<[op |-> "call", cl |-> cl, k |-> o.k, cfg |-> o.cfg, x |-> o.x]>>)

Step ==
  /\ D.tgt < 0 /\ ~Urgent(D)
  /\ \E c \in DOMAIN D.run : \E o \in StepsOf(D, c) :
       Take(o.d, o.e, IF Turns \/ o.e = <<>> THEN <<>> ELSE <<[op |-> "go", cl |-> D.run[c].cl, n |-> 1]>>)

Change ==
  /\ D.nFs < C.maxfs /\ D.nC < C.maxcalls /\ D.tgt < 0 /\ ~Urgent(D) /\ (Turns => ~Busy(D))
  \* when a call looks at the directory cannot be seen: files do not change before its first event
  /\ \A c \in DOMAIN D.run : S.at[c].begun
  /\ \E ch \in Rng(C.changes) :
       LET d == [D EXCEPT !.disk = IF ch.b = -9 THEN [x \in DOMAIN @ \ {ch.f} |-> @[x]] ELSE Put(@, ch.f, ch.b), !.nFs = @ + 1]
       IN /\ d.disk # D.disk
          \* several changes between two calls come in a fixed order
          /\ \A q \in DOMAIN C.changes : (C.changes[q] = ch /\ D.nFs > 0) => q > D.chg
          /\ Take([d EXCEPT !.chg = CHOOSE q \in DOMAIN C.changes : C.changes[q] = ch], <<FsEvent(d)>>,
                  <<[op |-> IF ch.b = -9 THEN "rm" ELSE "put", f |-> ch.f \o ".so", b |-> ch.b]>>)

\* time passes, at most once between two calls, before files change
Tick ==
  /\ C.ticks # <<>> /\ D.tgt < 0 /\ D.fresh /\ D.nFs = 0 /\ D.nC > 0 /\ ~Urgent(D) /\ (Turns => ~Busy(D))
  /\ \E ms \in Rng(C.ticks) :
       Take([D EXCEPT !.tgt = D.t + ms, !.fresh = FALSE], <<>>, <<[op |-> "tick", ms |-> ms]>>)

Tock ==   \* everything that was due has happened
  /\ D.tgt >= 0 /\ (Held \/ DueSet(D) = {})
  /\ LET d == [D EXCEPT !.t = D.tgt, !.tgt = -1]
     IN Take(d, <<Seal(d, [e |-> "settle", c |-> 0, cnt |-> d.cnt, errs |-> d.errs, heldt |-> DueSet(d) # {}])>>, <<>>)

Timer ==
  /\ (Turns => ~Busy(D)) /\ (Held => D.tgt < 0)
  /\ \E x \in (IF Held THEN DueSet(D) ELSE FirstDue(D)) : \E o \in TimerSteps(D, x) :
       Take(o.d, o.e, IF Held /\ o.e # <<>> THEN <<[op |-> "trel"]>> ELSE <<>>)

Invoke ==
  /\ D.nInv < C.maxinv /\ D.tgt < 0 /\ D.cur # 0 /\ ~Urgent(D) /\ (Turns => ~Busy(D))
  /\ \E fwd \in BOOLEAN :
       LET k == D.nK + 1
           ord == D.mm[D.cur].ord
           seq == IF fwd THEN ord ELSE Reverse(ord)
           bad(n) == Cardinality({x \in 1..n : Fault(Bi(D, seq[x]), "inv") # "ok"})
           d == [D EXCEPT !.nK = k, !.nInv = @ + 1, !.errs = @ + bad(Len(seq))]
           es == <<Seal(D, [e |-> "invs", c |-> 0, k |-> k, m |-> D.cur, fwd |-> fwd, errs |-> D.errs])>>
                 \o [x \in DOMAIN seq |-> Seal(D, [e |-> "inv", c |-> 0, k |-> k, i |-> seq[x], b |-> Bi(D, seq[x]),
                                                   r |-> Fault(Bi(D, seq[x]), "inv"), argok |-> TRUE])]
                 \o <<Seal(d, [e |-> "inve", c |-> 0, k |-> k, pan |-> FALSE, errs |-> d.errs])>>
       IN Take(d, es, <<[op |-> "inv", m |-> 0, fwd |-> fwd]>>)

\* a look at the current manager
Look ==
  LET m == D.mm[D.cur]
      mem == Rng(m.ord)
      keys == SetToSeq(DOMAIN m.pm)
      v == [lf |-> SetToSeq(LFof(D, mem)), lt |-> SetToSeq(LTof(D, mem)), ext |-> IF H.ext THEN D.cur ELSE 0, vp |-> D.cur]
      e == [e |-> "snap", c |-> 0, m |-> D.cur,
            pl |-> [x \in DOMAIN m.ord |-> LET i == m.ord[x] IN
                      [i |-> i, n |-> B(Bi(D, i)).k, deps |-> SetToSeq(DepKeys(B(Bi(D, i)))), wire |-> SetToSeq(D.wire[i]), sha |-> TRUE, attr |-> ""]],
            find |-> [x \in DOMAIN keys |-> <<keys[x], m.pm[keys[x]]>>]] @@ v
  IN <<Seal(D, e)>>
Snap ==
  /\ D.cur # 0 /\ ~Busy(D) /\ D.tgt < 0 /\ (DOMAIN S.mg = {} \/ D.cur \notin DOMAIN S.mg \/ S.mg[D.cur].snap = <<>>)
  /\ Take(D, Look, <<>>)

\* C.init: the files at the beginning
Init ==
  /\ log = <<>> /\ viol = {}
  /\ LET d == [D0 EXCEPT !.disk = [n \in {x.f : x \in Rng(C.init)} |-> (CHOOSE x \in Rng(C.init) : x.f = n).b]]
     IN D = d /\ S = Proc(State0(H), FsEvent(d)).s

AllDone == D.nC = C.maxcalls /\ ~Busy(D) /\ D.tgt < 0

\* the end of a history: it is put out for the real code to go through
Final == /\ AllDone /\ ~D.fin
         /\ IF C.emit THEN PrintT(<<"SCEN", ToJson(log)>>) ELSE TRUE
         /\ D' = [D EXCEPT !.fin = TRUE]
         /\ UNCHANGED <<S, viol, log>>
Over == D.fin /\ UNCHANGED vars

Next == \/ ~D.fin /\ (Call \/ Step \/ Change \/ Tick \/ Tock \/ Timer \/ Invoke \/ Snap)
        \/ Final \/ Over
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* without the history
View == <<S, viol, D>>

NoViolation == viol = {}
\* reference counts: the number of published, unretired managers (and loads under way) that hold the instance
RefsRight ==
  Mut = "none" => \A i \in DOMAIN D.refs :
    D.refs[i] >= 0 /\ ((i \in D.done) => D.refs[i] = 0)
\* the mutex admits one load at a time
OneAtATime == Cardinality({c \in DOMAIN D.run : D.run[c].pc # "lock" /\ (Static(S) => D.run[c].op = "load")}) <= 1
=============================================================================
