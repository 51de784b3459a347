----------------------------- MODULE CliDesign -----------------------------
(***************************************************************************)
(* The design of the command line tool, step by step.                       *)
(*                                                                          *)
(* A dynamic build asks git, removes a left over temporary package of the   *)
(* same name, starts to listen for signals, checks the required functions,  *)
(* copies the sources with several workers, looks for live functions and    *)
(* types, adds the generated files, runs go build and cleans up. Any        *)
(* external tool may fail, and signals may arrive between any two steps.    *)
(* A run for static linking removes what was generated before, looks for    *)
(* live functions and types and writes the new files; it may be cut short   *)
(* after any of its steps. While an external tool of a dynamic build runs,  *)
(* other builds may take place from their beginning to their end.           *)
(*                                                                          *)
(* At its end each run is fed to CProc of CliCore as an event. So the model *)
(* checker decides for every history, interleaving, failure and signal      *)
(* within the bounds of a configuration that this design has the properties *)
(* (viol stays empty), and, with Mut naming a flaw to build in, that the    *)
(* flaw is noticed. `log` is the history in the language of the scenarios   *)
(* that the real tool is then made to go through.                           *)
(***************************************************************************)
EXTENDS CliCore, Json, IOUtils
SE == INSTANCE SequencesExt

C == JsonDeserialize(IOEnv.DESIGN)
Mut == C.mut
Fault(st) == st \in CRng(C.faults)

VARIABLES S, viol, D, log
vars == <<S, viol, D, log>>

Seq1(s) == SE!SetToSeq(s)
Brief(f) == [dir |-> f.dir, name |-> f.name, raw |-> f.raw]

D0 == [dir  |-> CEmpty,    \* plugin -> files in its directory (the user's and generated ones)
       var  |-> CEmpty,    \* plugin -> which version of its sources
       outs |-> {},        \* files in the output directory of static linking
       dout |-> {},        \* plugin files: [name, raw]
       tmps |-> CEmpty,    \* temporary packages: [p, c, t] -> files
       run  |-> [pc |-> "none"],
       held |-> [pc |-> "none"],   \* a build that stands still while others run
       hide |-> {},                \* its output in the making
       made |-> CEmpty,            \* raw content of a plugin file -> [tmp, live] that it was built from
       nOps |-> 0, com |-> 1, t |-> 0, fin |-> FALSE]

Emit2(d, es, step) ==
  LET RECURSIVE Go(_, _)
      Go(q, x) == IF x = <<>> THEN q ELSE LET r == CProc(q.s, Head(x)) IN Go([s |-> r.s, v |-> q.v \cup r.v], Tail(x))
  IN \E q \in {Go([s |-> S, v |-> {}], es)} : S' = q.s /\ viol' = viol \cup q.v /\ D' = d /\ log' = Append(log, step)
Emit(d, e, step) == Emit2(d, <<e>>, step)
Quiet(d) == D' = d /\ UNCHANGED <<S, viol, log>>

Variant(p) == C.vars[p][D.var[p]]
User(p) == CRng(Variant(p).files)
Opt(n) == C.opts[n]

-----------------------------------------------------------------------------
(* What the tool makes of the files of a package *)

Gen(p, d, n, raw, decls) ==
  [dir |-> d, name |-> n, raw |-> raw, go |-> TRUE, pkg |-> "gen", imps |-> <<>>, rest |-> raw, cond |-> [k |-> "on", t |-> ""], decls |-> decls]
Fn(n) == [k |-> "func", n |-> n]
Bureau(p) == Gen(p, <<"hotswapbureau">>, "hotswap.bureau.go", "bureau", <<Fn("RegisterFunc"), Fn("RegisterType")>>)
Main(p, live) == Gen(p, <<>>, "hotswap.main.go", "main" \o ToString({o.dir : o \in live}), <<Fn("HotswapLiveFuncs"), Fn("HotswapLiveTypes")>>)
Live(p, d, live) == Gen(p, d, "hotswap.live.go", "live" \o ToString({<<o.d.k, o.d.n>> : o \in {x \in live : x.dir = d}}), <<>>)
InitF(p) == Gen(p, <<>>, InitFile(p), "init " \o p, <<>>)
Shared == Gen("", <<>>, SharedFile, "shared", <<>>)

\* the live declarations in a set of files (generated ones not excepted)
Scanned(fs, o) ==
  UNION {{[dir |-> f.dir, file |-> f.name, i |-> i, d |-> f.decls[i]] :
            i \in {j \in DOMAIN f.decls : /\ f.decls[j].k \in {"req", "func", "struct", "nonstruct"}
                                         /\ HasFoldPrefix(f.decls[j].n, o.prefix)}} :
         f \in {g \in fs : IsGo(g) /\ ~IsTest(g) /\ ~Hidden(g) /\ (Mut = "scan-without-tags" \/ CondOk(g.cond, CRng(o.tags)))
                                                /\ (Mut = "scan-without-tags" => CondOk(g.cond, {}))}}
Refused(live) == \/ Mut # "duplicates-unnoticed" /\ \E x, y \in live : x # y /\ x.d.n = y.d.n
                                                     /\ (Mut = "duplicates-of-a-kind" => x.d.k = y.d.k)
                 \/ Mut # "types-unchecked" /\ \E x \in live : x.d.k = "nonstruct"
LiveFiles(p, live) == {Live(p, d, live) : d \in {x.dir : x \in live}}
Lacking(src, tags) ==
  CASE Mut = "required-anywhere" -> Required \ UNION {{d.n : d \in CRng(f.decls)} : f \in {g \in src : IsGo(g)}}
    [] Mut = "required-excluded-files" -> Required \ Declared(src)
    [] OTHER -> Missing(src, tags)

-----------------------------------------------------------------------------
(* Editing *)

Idle == D.run.pc = "none" /\ D.nOps < C.maxops
Alone == D.held.pc = "none"
Op(d) == [d EXCEPT !.nOps = @ + 1]

PutSrc(d, p, v) == [d EXCEPT !.var = CPut(@, p, v),
                             !.dir = CPut(@, p, CRng(C.vars[p][v].files) \cup
                                     (IF p \in DOMAIN d.dir THEN {f \in d.dir[p] : IsGen(f)} ELSE {}))]

Edit ==
  /\ Idle /\ Alone /\ "edit" \in CRng(C.ops)
  /\ (log # <<>> => log[Len(log)].op # "edit")
  /\ \E p \in DOMAIN C.vars : \E v \in DOMAIN C.vars[p] :
       /\ v # D.var[p]
       /\ Emit(PutSrc(Op(D), p, v), [e |-> "src", p |-> p, files |-> C.vars[p][v].files], [op |-> "edit", p |-> p, v |-> v])

Commit == /\ Idle /\ "commit" \in CRng(C.ops) /\ (Alone /\ log # <<>> => log[Len(log)].op = "dyn")
          /\ Quiet([Op(D) EXCEPT !.com = @ + 1])
Wait == /\ Idle /\ "wait" \in CRng(C.ops) /\ (log # <<>> => log[Len(log)].op = "dyn")
        /\ Quiet([Op(D) EXCEPT !.t = @ + 1])

-----------------------------------------------------------------------------
(* Static linking. One run is one step here, cut short after n of its actions. *)

Put1(fs, f) == {g \in fs : g.dir # f.dir \/ g.name # f.name} \cup {f}

\* [dir, outs, why]: why the run ends: "" all done, "cut", or the reason
Lose(x, fs) == [x EXCEPT !.dir = @ \ fs]
Removed(p, x) ==
  LET mine == {f \in x.dir : IsGen(f)}
      inits == CASE Mut = "init-files-of-others" -> {f \in x.outs : f.dir = <<>> /\ HasPrefix(f.name, "hotswap.staticPluginInit.")}
                 [] Mut = "init-file-by-prefix" -> {f \in x.outs : f.dir = <<>> /\ HasPrefix(f.name, "hotswap.staticPluginInit." \o p)}
                 [] OTHER -> {f \in x.outs : f.dir = <<>> /\ f.name = InitFile(p)}
      more == IF Mut = "bureau-directory" THEN {f \in x.dir : f.dir = <<"hotswapbureau">>} ELSE {}
  IN [x EXCEPT !.dir = @ \ (mine \cup more), !.outs = @ \ inits]

StaticRun(p, op, o, x0, cut) ==
  LET x1 == IF cut = 0 THEN x0 ELSE IF op = "build" /\ Mut = "no-removal" THEN x0 ELSE Removed(p, x0)
      live == Scanned(x1.dir, o)
      tags == CRng(o.tags)
      lack == Lacking({f \in x1.dir : ~IsGen(f)}, tags)
      put(x, f) == [x EXCEPT !.dir = Put1(@, f)]
      out(x, f) == [x EXCEPT !.outs = Put1(@, f)]
      RECURSIVE All(_, _)
      All(x, fs) == IF fs = {} THEN x ELSE LET f == CHOOSE f \in fs : TRUE IN All(put(x, f), fs \ {f})
      x2 == put(x1, Bureau(p))
      x3 == put(x2, Main(p, live))
      x4 == All(x3, LiveFiles(p, live))
      x5 == out(x4, InitF(p))
      x6 == out(x5, Shared)
  IN IF cut < 2 /\ cut >= 0 THEN [x |-> x1, why |-> "cut"]
     ELSE IF op = "clean" THEN [x |-> x1, why |-> ""]
     ELSE IF Refused(live) THEN [x |-> x1, why |-> "refused"]
     ELSE IF cut = 2 THEN [x |-> x2, why |-> "cut"] ELSE IF cut = 3 THEN [x |-> x3, why |-> "cut"] ELSE IF cut = 4 THEN [x |-> x4, why |-> "cut"]
     ELSE IF lack # {} THEN [x |-> x4, why |-> "lacking"]
     ELSE IF cut = 5 THEN [x |-> x5, why |-> "cut"]
     ELSE [x |-> x6, why |-> ""]

Static ==
  /\ Idle /\ Alone
  /\ \E op \in CRng(C.ops) \cap {"build", "clean"} : \E p \in DOMAIN C.vars : \E n \in DOMAIN C.opts :
     \E cut \in {-1} \cup (IF Fault("cut") THEN 0..5 ELSE {}) :
       /\ (op = "clean" => n = 1)
       /\ LET o == Opt(n)
              r == StaticRun(p, op, o, [dir |-> D.dir[p], outs |-> D.outs], cut)
              d == [Op(D) EXCEPT !.dir = CPut(@, p, r.x.dir), !.outs = r.x.outs]
              lack == Lacking({f \in D.dir[p] : ~IsGen(f)}, CRng(o.tags))
              w(q, fs) == {[w |-> q, dir |-> f.dir, name |-> f.name, raw |-> f.raw] : f \in fs}
              fs == UNION {w(q, d.dir[q]) : q \in DOMAIN d.dir} \cup w("out", d.outs)
          IN /\ (cut >= 0 => r.why = "cut")
             /\ Emit(d, [e |-> "sta", p |-> p, op |-> op, o |-> o, fault |-> IF r.why = "cut" THEN "cut" ELSE "none",
                         exit |-> IF r.why = "" THEN 0 ELSE 1, named |-> IF r.why = "lacking" THEN Seq1(lack) ELSE <<>>, fs |-> Seq1(fs)],
                     [op |-> op, p |-> p, o |-> n, cut |-> IF r.why = "cut" THEN cut ELSE -1])

\* a program that uses everything generated
Drive ==
  /\ Idle /\ Alone /\ "drive" \in CRng(C.ops) /\ log # <<>> /\ log[Len(log)].op \in {"build", "clean"}
  /\ \E f \in D.outs : f.name = SharedFile     \* something has been generated
  /\ ~\E p \in DOMAIN S.gen : S.gen[p].st = "any" \/ (S.gen[p].st = "built" /\ S.gen[p].src # S.src[p])
  /\ LET ps == {p \in DOMAIN D.dir : \E f \in D.outs : f.name = InitFile(p)}
         reg(p) == LET o == IF p \in DOMAIN S.gen /\ S.gen[p].st = "built" THEN S.gen[p].o ELSE Opt(1)
                       fs == {f \in D.dir[p] : f.name = "hotswap.live.go"}
                       live == Scanned({f \in D.dir[p] : Mut # "no-removal" => ~IsGen(f)}, o)
                   IN {[k |-> IF x.d.k = "struct" THEN "type" ELSE "func", n |-> x.d.n, dir |-> IF x.d.k = "req" THEN <<>> ELSE x.dir] :
                       x \in {y \in live : \E f \in fs : f.dir = y.dir /\ f = Live(p, y.dir, live)}}
     IN Emit(Op(D), [e |-> "drive", ok |-> \A p \in ps : \E f \in D.dir[p] : f.name = "hotswap.main.go",
                     reg |-> Seq1({[p |-> p, name |-> p, live |-> Seq1(reg(p)), wrong |-> <<>>] : p \in ps})], [op |-> "drive"])

-----------------------------------------------------------------------------
(* A dynamic build, step by step *)

B == D.run
Workers == 1..C.workers
TmpName(p) == [p |-> IF Mut = "name-without-plugin" THEN "" ELSE p,
               c |-> IF Mut = "name-without-commit" THEN 0 ELSE D.com, t |-> IF Mut = "name-without-time" THEN 0 ELSE D.t]
TmpPath(p, n) == LET b == BaseOf(S, p) IN SubSeq(b, 1, Len(b) - 1) \o <<"tmp-" \o ToString(n)>>
Keep == B.o.leave \/ ~B.o.gobuild
Tmp == IF B.tmp \in DOMAIN D.tmps THEN D.tmps[B.tmp] ELSE {}
HasTmp == B.tmp \in DOMAIN D.tmps
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

So(p) == p \o ".so"
OutName == IF Mut = "built-in-place" THEN So(B.p) ELSE IF Mut = "output-by-plugin" THEN B.p \o ".building" ELSE ToString(B.tmp) \o ".building"
Put(fs, f) == {g \in fs : g.name # f.name} \cup {f}
To(pc) == Quiet([D EXCEPT !.run.pc = pc])
Fail(why) == Quiet([D EXCEPT !.run.pc = "end", !.run.failed = TRUE, !.run.why = why])
Arranged(st) == Fault(st) /\ B.af \in {"any", st} /\ Quiet([D EXCEPT !.run.pc = IF B.h = "off" THEN "over" ELSE "end", !.run.failed = TRUE, !.run.fault = st, !.run.why = st])
Interrupted == B.intr /\ Mut # "interrupts-unnoticed"

SignalSites == {"git", "stale", "notify", "req", "collect", "copy", "list", "scan", "gen", "ready", "build", "publish", "end", "tidy"}
\* random histories decide beforehand where signals arrive and what fails, or else most would come early
Aims == IF ~C.emit \/ C.sigs = 0 THEN {<<"any">>}
        ELSE {<<a, b>> : a \in SignalSites, b \in (IF C.sigs > 1 THEN SignalSites ELSE {"no"})} \cup {<<"no", x>> : x \in SignalSites}
FaultAims == IF C.emit THEN {"any", "none"} \cup {"none" \o ToString(i) : i \in 1..4} \cup CRng(C.faults) ELSE {"any"}
Holds == IF C.emit /\ "overlap" \in CRng(C.ops) /\ Alone THEN {"no", "git", "req", "list", "build", "publish"} ELSE {"no"}
Start ==
  /\ Idle /\ "dyn" \in CRng(C.ops)
  /\ \E p \in DOMAIN C.vars : \E n \in DOMAIN C.opts : \E aim \in Aims : \E af \in FaultAims : \E hold \in Holds :
       Quiet([Op(D) EXCEPT !.run = [pc |-> "git", com |-> D.com, t |-> D.t, heldat |-> "", base |-> 0, hold |-> hold, aim |-> aim, af |-> af, p |-> p, n |-> n, o |-> Opt(n), before |-> DOMAIN D.tmps, tmp |-> TmpName(p), sigs |-> <<>>, ch |-> <<>>,
                h |-> "off", intr |-> FALSE, fault |-> IF Variant(p).fault = "compile" /\ ~Opt(n).gobuild THEN "none" ELSE Variant(p).fault, failed |-> FALSE, why |-> "", pend |-> {}, w |-> [x \in Workers |-> "idle"],
                has |-> [x \in Workers |-> <<>>], errs |-> 0, closed |-> 0, cint |-> FALSE, snap |-> {}, part |-> FALSE, built |-> FALSE, live |-> {}]])

Main1 ==
  LET p == B.p src == User(p) tags == CRng(B.o.tags) IN
  CASE B.pc = "git" -> To("stale") \/ Arranged("git")
    [] B.pc = "stale" -> Quiet([D EXCEPT !.run.pc = "notify", !.run.before = @ \ {B.tmp},
                                         !.tmps = CASE Mut = "left-overs-stay" -> @
                                                     [] Mut = "older-ones-removed" -> [x \in {k \in DOMAIN @ : k.p # p} |-> @[x]]
                                                     [] OTHER -> Del(@, B.tmp)])
    [] B.pc = "notify" -> Quiet([D EXCEPT !.run.pc = "req", !.run.h = IF Mut = "listens-late" THEN "off" ELSE "wait"])
    [] B.pc = "req" -> \/ IF Lacking(src, tags) # {} /\ Mut # "required-unchecked" THEN Fail("lacking") ELSE To("collect")
                       \/ Arranged("req")
    [] B.pc = "collect" ->
         Quiet([D EXCEPT !.run.pc = "copy",
                         !.tmps = CPut(@, B.tmp, IF HasTmp THEN Tmp ELSE {}),
                         !.dout = IF Mut = "old-plugin-removed-first" THEN {f \in @ : f.name # p \o ".so"} ELSE @,
                         !.run.pend = {f \in D.dir[p] : IF Mut = "copies-generated" /\ IsGo(f) THEN ~IsTest(f)
                                                        ELSE IF Mut = "copies-tests" /\ IsGo(f) THEN ~IsGen(f) ELSE Selected(f, B.o)}])
    [] B.pc = "copy" -> /\ (\A x \in Workers : B.w[x] = "done") \/ (Mut = "workers-not-awaited" /\ B.errs > 0)
                        /\ IF B.errs > 0 THEN Fail("copying") ELSE Quiet([D EXCEPT !.run.pc = "list", !.run.h = IF @ = "off" THEN "wait" ELSE @])
    [] B.pc = "list" -> To("scan") \/ Arranged("list")
    [] B.pc = "scan" ->
         LET live == Scanned(Tmp, B.o)
         IN IF Interrupted THEN Fail("interrupted")
            ELSE IF Refused(live) THEN Fail("refused")
            ELSE Quiet([D EXCEPT !.run.pc = "gen", !.run.live = live])
    [] B.pc = "gen" ->
         LET fs == {Bureau(p), Main(p, B.live)} \cup LiveFiles(p, B.live)
         IN IF Interrupted THEN Fail("interrupted")
            ELSE Quiet([D EXCEPT !.run.pc = IF B.o.gobuild THEN "ready" ELSE "end", !.tmps = CPut(@, B.tmp, Tmp \cup fs)])
    [] B.pc = "ready" -> IF Interrupted THEN Fail("interrupted") ELSE Quiet([D EXCEPT !.run.pc = "build", !.run.snap = Tmp])
    [] B.pc = "build" ->     \* go build is running; it writes its output bit by bit
         \/ /\ B.fault # "compile" /\ ~Variant(p).broken
            /\ Lacking(src, tags) = {} /\ HasTmp
            /\ ~B.part
            /\ Quiet([D EXCEPT !.run.part = TRUE, !.dout = Put(@, [name |-> OutName, raw |-> "torn"])])
         \/ /\ B.part
            /\ LET so == [name |-> OutName, raw |-> ToString(<<B.tmp, {<<f.dir, f.name, f.raw>> : f \in B.snap}>>)]
               IN Quiet([D EXCEPT !.made = CPut(@, so.raw, [tmp |-> TmpPath(p, B.tmp), live |-> B.live]), !.run.pc = IF OutName = So(p) THEN "end" ELSE "publish", !.run.built = TRUE, !.dout = Put(@, so)])
         \/ (B.cint \/ Variant(p).broken \/ Lacking(src, tags) # {} \/ ~HasTmp) /\ Fail("build")
         \/ Arranged("build")
         \/ Mut = "build-not-awaited" /\ B.intr /\ Fail("interrupted")
    [] B.pc = "publish" ->   \* the output gets its name
         Quiet([D EXCEPT !.run.pc = "end", !.dout = IF \A f \in @ : f.name # OutName THEN @
                                                    ELSE LET f == CHOOSE f \in @ : f.name = OutName IN Put(@ \ {f}, [f EXCEPT !.name = So(p)])])
    [] B.pc = "end" ->       \* the end of the deferred function: no more signals are waited for
         /\ B.h # "wait" \/ TRUE
         /\ Quiet([D EXCEPT !.run.pc = "tidy", !.run.h = IF @ = "wait" THEN "over" ELSE @,
                            !.dout = IF Mut = "output-stays" \/ OutName = So(p) THEN @ ELSE {f \in @ : f.name # OutName}])
    [] B.pc = "tidy" ->
         Quiet([D EXCEPT !.run.pc = "over",
                         !.tmps = IF Keep \/ (Mut = "failures-not-cleaned" /\ B.failed) \/ (Mut = "interrupts-not-cleaned" /\ B.intr) THEN @ ELSE Del(@, B.tmp)])
    [] OTHER -> FALSE

Image(f) == IF ~IsGo(f) THEN [f EXCEPT !.imps = <<>>]
            ELSE [f EXCEPT !.pkg = IF f.dir = <<>> THEN "main" ELSE @,
                           !.imps = [i \in DOMAIN @ |->
                              IF Mut = "imports-by-prefix" /\ HasPrefix(ToString(@[i]), SubSeq(ToString(BaseOf(S, B.p)), 1, Len(ToString(BaseOf(S, B.p))) - 3))
                                THEN <<"wrong">> ELSE Redirect(@[i], BaseOf(S, B.p), TmpPath(B.p, B.tmp))]]

Copy(x) ==
  /\ B.pc = "copy" \/ (Mut = "workers-not-awaited" /\ B.pc # "none")
  /\ \/ /\ B.w[x] = "idle"
        /\ IF B.intr \/ B.closed > 0 \/ B.pend = {} THEN Quiet([D EXCEPT !.run.w[x] = "done"])
           ELSE LET f == CHOOSE f \in B.pend : TRUE IN Quiet([D EXCEPT !.run.w[x] = "read", !.run.has[x] = <<f>>, !.run.pend = @ \ {f}])
     \/ /\ B.w[x] = "read"
        /\ LET f == B.has[x][1]
           IN IF f.name \in CRng(Variant(B.p).gone)
                THEN Quiet([D EXCEPT !.run.w[x] = "err", !.run.errs = @ + 1])
                ELSE Quiet([D EXCEPT !.run.w[x] = "idle", !.run.has[x] = <<>>, !.tmps = CPut(@, B.tmp, Tmp \cup {Image(f)})])
     \/ /\ B.w[x] = "err"     \* the error has been reported; the others are to stop
        /\ IF Mut = "abort-closed-twice" /\ B.closed > 0
             THEN Quiet([D EXCEPT !.run.pc = "over", !.run.failed = TRUE, !.run.why = "crash", !.run.w = [y \in Workers |-> "done"]])
             ELSE Quiet([D EXCEPT !.run.w[x] = "done", !.run.closed = @ + 1])

\* a signal arrives; group: at the tools that are running as well
Arrives ==
  /\ B.pc \in SignalSites /\ Len(B.sigs) < C.sigs
  /\ B.aim # <<"any">> => B.aim[Len(B.sigs) + 1] = B.pc
  /\ \E s \in {"INT", "TERM"} : \E g \in BOOLEAN :
       LET d == [D EXCEPT !.run.sigs = Append(@, [s |-> s, at |-> B.pc, group |-> g]),
                          !.run.cint = @ \/ (g /\ B.pc = "build")]
           dead == [d EXCEPT !.run.pc = "over", !.run.failed = TRUE, !.run.why = IF B.h = "off" THEN "killed" ELSE "killed again",
                             !.run.w = [y \in Workers |-> "done"]]
       IN /\ (g => B.pc \in {"git", "req", "list", "build"})
          /\ IF B.h = "off" \/ B.intr THEN Quiet(dead)     \* by default the process ends
             ELSE IF B.h = "wait" /\ B.ch = <<>> /\ ~(g /\ B.pc \in {"req", "list"}) THEN Quiet([d EXCEPT !.run.ch = <<s>>])
             ELSE IF B.h = "wait" /\ B.ch = <<>> THEN Quiet([d EXCEPT !.run.ch = <<s>>, !.run.pc = "end", !.run.failed = TRUE, !.run.why = "tool killed"])
             ELSE Quiet(d)

Handler ==
  /\ B.h = "wait" /\ B.ch # <<>>
  /\ Quiet([D EXCEPT !.run.h = "over",
                     !.run.intr = Mut # "term-ignored" \/ B.ch[1] = "INT",
                     !.run.ch = <<>>])
\* go build is told
Tell == /\ B.pc = "build" /\ B.intr /\ ~B.cint /\ Mut # "build-not-told"
        /\ Quiet([D EXCEPT !.run.cint = TRUE])

\* an external tool is at work (or has just finished): the build stands still, and resumes when others are over
Suspend ==
  /\ "overlap" \in CRng(C.ops) /\ Alone /\ B.heldat = "" /\ D.nOps < C.maxops
  /\ B.pc \in {"git", "req", "list", "build", "publish"}
  /\ (C.emit => B.pc = B.hold)
  /\ Quiet([D EXCEPT !.held = [B EXCEPT !.heldat = B.pc, !.base = Len(S.vers)], !.run = [pc |-> "none"], !.t = @ + 1,
                     !.hide = {f \in D.dout : f.name = OutName}])
Resume ==
  /\ D.run.pc = "none" /\ ~Alone
  /\ Quiet([D EXCEPT !.run = D.held, !.held = [pc |-> "none"], !.hide = {}])

\* random histories decide beforehand where to stand still
Holding == C.emit /\ B.pc # "none" /\ B.pc = B.hold /\ Alone /\ B.heldat = "" /\ D.nOps < C.maxops

\* the run is over: what is seen of it
Over ==
  /\ B.pc = "over"
  /\ (Mut = "workers-not-awaited" => \A x \in Workers : B.w[x] = "done")
  /\ LET again == B.why = "killed again"
         new == DOMAIN D.tmps \ B.before
         snap == IF B.snap # {} THEN B.snap ELSE IF ~B.o.gobuild /\ ~B.failed THEN Tmp ELSE {}
         lack == Lacking(User(B.p), CRng(B.o.tags))
         \* without what the build that stands still has there
         out == D.dout \ D.hide
         made == IF \E f \in out : f.name = So(B.p) /\ f.raw \in DOMAIN D.made
                   THEN D.made[(CHOOSE f \in out : f.name = So(B.p)).raw] ELSE [tmp |-> <<>>, live |-> {}]
         e == [e |-> "dyn", p |-> B.p, o |-> B.o, fault |-> B.fault, sig |-> IF again THEN "twice" ELSE IF B.sigs = <<>> THEN "none" ELSE B.sigs[1].s,
               exit |-> IF B.failed THEN 1 ELSE 0, named |-> IF B.why = "lacking" THEN Seq1(lack) ELSE <<>>,
               after |-> Seq1({Brief(f) : f \in D.dir[B.p]}), out |-> Seq1(out), temps |-> Cardinality(new),
               snap |-> [ok |-> snap # {}, files |-> Seq1(snap)], tmp |-> IF snap # {} THEN TmpPath(B.p, B.tmp) ELSE <<"none">>,
               commit |-> B.com, inner |-> ~Alone, over |-> IF B.heldat = "" THEN <<>> ELSE [i \in 1..(Len(S.vers) - B.base) |-> B.base + i],
               t |-> B.t, t2 |-> D.t]
         stays == CASE ~Keep \/ again -> {} [] OTHER -> new
         step == [op |-> "dyn", p |-> B.p, o |-> B.n, fault |-> B.fault, sigs |-> B.sigs, com |-> B.com, t |-> B.t, heldat |-> B.heldat,
                  over |-> IF B.heldat = "" THEN 0 ELSE Len(S.vers) - B.base]
     IN \E rm \in (IF "stay" \in CRng(C.ops) /\ Keep /\ Alone THEN BOOLEAN ELSE {TRUE}) :     \* what is left may be removed by hand
          LET d == [D EXCEPT !.run = [pc |-> "none"],
                             !.tmps = IF rm THEN [x \in DOMAIN @ \ new |-> @[x]] ELSE [x \in DOMAIN @ |-> @[x] \cup {Gen("", <<"sub">>, "stale.go", "stale", <<Fn("live_stale")>>)}]]
          IN Emit2(d, <<e>> \o (IF ~B.built \/ B.failed THEN <<>> ELSE      \* the plugin is loaded
                    <<[e |-> "load", b |-> Len(S.vers) + 1, ok |-> TRUE, where |-> Seq1({made.tmp \o x.dir : x \in made.live}),
                       reg |-> Seq1({[k |-> IF x.d.k = "struct" THEN "type" ELSE "func", n |-> x.d.n, dir |-> IF x.d.k = "req" THEN <<>> ELSE x.dir] : x \in made.live})]>>),
                    step @@ [stay |-> ~rm])

-----------------------------------------------------------------------------
RECURSIVE Feed(_, _)
Feed(T, es) == IF es = <<>> THEN T ELSE Feed(CProc(T, Head(es)).s, Tail(es))

Init ==
  LET ps == Seq1(DOMAIN C.vars)
      d == [D0 EXCEPT !.var = [p \in DOMAIN C.vars |-> 1], !.dir = [p \in DOMAIN C.vars |-> CRng(C.vars[p][1].files)], !.outs = CRng(C.sout)]
  IN /\ viol = {} /\ log = <<>> /\ D = d
     /\ S = Feed(CState0(C.hdr), [i \in DOMAIN ps |-> [e |-> "src", p |-> ps[i], files |-> C.vars[ps[i]][1].files]]
                                 \o <<[e |-> "sout", files |-> C.sout]>>)

AllDone == D.run.pc = "none" /\ Alone /\ D.nOps = C.maxops
Final == /\ AllDone /\ ~D.fin
         /\ IF C.emit THEN PrintT(<<"SCEN", ToJson(log)>>) ELSE TRUE
         /\ D' = [D EXCEPT !.fin = TRUE] /\ UNCHANGED <<S, viol, log>>
Done == D.fin /\ UNCHANGED vars

Building == D.run.pc # "none"
Next == \/ Edit \/ Commit \/ Wait \/ Static \/ Drive \/ Start
        \/ Building /\ ((~Holding /\ Main1) \/ Arrives \/ Handler \/ Tell \/ Over \/ Suspend \/ \E x \in Workers : Copy(x))
        \/ Resume
        \/ Final \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Building /\ (Main1 \/ Handler \/ Tell \/ Over \/ \E x \in Workers : Copy(x)))

View == <<S, viol, D>>
NoViolation == viol = {}
\* nothing works on the temporary package any more once it is removed
Quiescent == Building /\ B.pc \in {"tidy", "over"} => \A x \in Workers : B.w[x] \in {"done", "idle"} /\ (Mut = "workers-not-awaited" => B.w[x] = "done")
\* every build ends
Ends == Building ~> ~Building
=============================================================================
