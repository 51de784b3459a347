------------------------------ MODULE CliCore ------------------------------
(***************************************************************************)
(* The command line tool (hotswap build), as an event-driven state machine  *)
(* over the file system: plugin source trees, the output directories, the   *)
(* files generated for static linking and the plugins built so far.         *)
(*                                                                          *)
(* As in HotswapCore, for a state S and an event e                          *)
(*     CProc(S, e).s  is the state after e                                  *)
(*     CProc(S, e).v  is the set of properties that e violates in S.        *)
(*                                                                          *)
(* One event is one run of the tool (or an edit of the sources, or the      *)
(* loading of plugins that were built), with everything it did to the file  *)
(* system. CliBuild refines the run of a dynamic build into its stages.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CV(tags, bad) == IF bad THEN tags ELSE {}
CRng(s) == {s[i] : i \in DOMAIN s}
CPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
CEmpty == [x \in {} |-> 0]

-----------------------------------------------------------------------------
(* Strings *)

HasSuffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
HasPrefix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Contains(s, t) == \E i \in 1..(Len(s) + 1) : i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t

Upper  == "ABCDEFGHIJKLMNOPQRSTUVWXYZÄÉÖŽ"
Lowers == "abcdefghijklmnopqrstuvwxyzäéöž"
UpperSet == {SubSeq(Upper, i, i) : i \in 1..Len(Upper)}
LowerOf == [c \in UpperSet |-> LET i == CHOOSE x \in 1..Len(Upper) : SubSeq(Upper, x, x) = c IN SubSeq(Lowers, i, i)]
LowerChar(c) == IF c \in UpperSet THEN LowerOf[c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LowerChar(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))
\* s begins with t, in upper or lower case
HasFoldPrefix(s, t) == Len(s) >= Len(t) /\ Lower(SubSeq(s, 1, Len(t))) = Lower(t)

-----------------------------------------------------------------------------
(* Source files. A file is a record
     dir    directory relative to the plugin (sequence of names), name   base name
     raw    identity of its content
   and, if it is a Go file (go),
     cond   build constraint: [k |-> "on" | "off" | "+" | "-", t |-> tag]
     pkg    package name, imps import paths (sequence of sequences of path elements)
     decls  top-level declarations [k, n]
     rest   identity of its content apart from package name and import paths      *)

GenNames == {"hotswap.bureau.go", "hotswap.main.go", "hotswap.live.go"}
Required == {"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable"}

IsGo(f) == HasSuffix(f.name, ".go")
IsTest(f) == HasSuffix(f.name, "_test.go")
IsGen(f) == f.name \in GenNames

\* the go command ignores these when it looks for packages
HiddenName(n) == HasPrefix(n, "_") \/ HasPrefix(n, ".")
Hidden(f) == HiddenName(f.name) \/ \E i \in DOMAIN f.dir : HiddenName(f.dir[i]) \/ f.dir[i] = "testdata"
CondOk(c, tags) == \/ c.k = "on"
                   \/ c.k = "+" /\ c.t \in tags
                   \/ c.k = "-" /\ c.t \notin tags
Compiled(f, tags) == IsGo(f) /\ ~IsTest(f) /\ ~IsGen(f) /\ ~Hidden(f) /\ CondOk(f.cond, tags)

-----------------------------------------------------------------------------
(* C26: the required functions *)

Declared(src) == UNION {{d.n : d \in {x \in CRng(f.decls) : x.k \in {"req", "func"}}} :
                        f \in {g \in src : IsGo(g) /\ ~IsTest(g) /\ g.dir = <<>>}}
\* the ones the plugin really has when compiled
Present(src, tags) == UNION {{d.n : d \in {x \in CRng(f.decls) : x.k \in {"req", "func"}}} :
                        f \in {g \in src : Compiled(g, tags) /\ g.dir = <<>>}}
Missing(src, tags) == Required \ Present(src, tags)

-----------------------------------------------------------------------------
(* C21: live functions and types. Declarations d.k:
     "req", "func"  top-level functions        "struct"  struct types
     "nonstruct"    other types                anything else is neither        *)

Occ(src, o) == UNION {{[dir |-> f.dir, file |-> f.name, i |-> i, d |-> f.decls[i]] :
                        i \in {j \in DOMAIN f.decls : /\ f.decls[j].k \in {"req", "func", "struct", "nonstruct"}
                                                     /\ HasFoldPrefix(f.decls[j].n, o.prefix)}} :
                      f \in {g \in src : Compiled(g, CRng(o.tags))}}
Duplicate(src, o) == \E x, y \in Occ(src, o) : x # y /\ x.d.n = y.d.n
NonStruct(src, o) == \E x \in Occ(src, o) : x.d.k = "nonstruct"
Reg(src, o) == {[k |-> IF x.d.k = "struct" THEN "type" ELSE "func", n |-> x.d.n,
                 dir |-> IF x.d.k = "req" THEN <<>> ELSE x.dir] : x \in Occ(src, o)}
LiveDirs(src, o) == {x.dir : x \in Occ(src, o)}

Acceptable(src, o) == /\ Missing(src, CRng(o.tags)) = {}
                      /\ ~Duplicate(src, o) /\ ~NonStruct(src, o)

-----------------------------------------------------------------------------
(* C23, C24: the copy that is compiled *)

\* patterns: [k, s]; a name matches a list of patterns if it matches one of them
MatchOne(p, n) == CASE p.k = "all" -> TRUE
                    [] p.k = "suffix" -> HasSuffix(n, p.s)
                    [] p.k = "prefix" -> HasPrefix(n, p.s)
                    [] p.k = "sub" -> Contains(n, p.s)
                    [] p.k = "exact" -> n = p.s
Match(ps, n) == \E i \in DOMAIN ps : MatchOne(ps[i], n)

Selected(f, o) == IF IsGo(f) THEN ~IsTest(f) /\ ~IsGen(f)
                             ELSE Match(o.inc, f.name) /\ ~Match(o.exc, f.name)

IsPathPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Redirect(path, own, tmp) == IF IsPathPrefix(own, path) THEN tmp \o SubSeq(path, Len(own) + 1, Len(path)) ELSE path

-----------------------------------------------------------------------------
(* State. Plugins are named; a plugin's sources are a set of files.         *)

CState0(h) == [
  h    |-> h,       \* base: p -> import path of the plugin's directory
  src  |-> CEmpty,  \* p -> set of files
  left |-> {},      \* names of files that killed builds may have left in it
  dout |-> {},      \* the output directory of dynamic builds: files [name, raw]
  vers |-> <<>>,    \* successful and failed dynamic builds: [p, src, o, tmp, made, commit, t]
  sout |-> {},      \* user files [dir, name, raw] in the output directory of static linking
  gen  |-> CEmpty,  \* p -> [st |-> "none"/"built"/"any", fs |-> files generated for it, src, o]
  nrun |-> 0
]

BaseOf(S, p) == (CHOOSE b \in CRng(S.h.base) : b.p = p).path
Raws(fs) == {[dir |-> f.dir, name |-> f.name, raw |-> f.raw] : f \in fs}
R(s, v) == [s |-> s, v |-> v]

-----------------------------------------------------------------------------
(* Edits *)

ESrc(S, e) == R([S EXCEPT !.src = CPut(@, e.p, CRng(e.files)),
                          !.gen = IF e.p \in DOMAIN @ THEN @ ELSE CPut(@, e.p, [st |-> "none", fs |-> {}, src |-> {}, o |-> 0])], {})
EOut(S, e) == R([S EXCEPT !.dout = CRng(e.files)], {})
ESout(S, e) == R([S EXCEPT !.sout = CRng(e.files)], {})

-----------------------------------------------------------------------------
(* A dynamic build.
     p, o [prefix, tags, inc, exc, leave, gobuild]
     fault   "none", or what was arranged to make the build fail
     sig     "none", or the signal that was sent to it while it was running; "twice": a second one ended it at once
     exit    exit status (-1: it did not end), named  required functions named in its output
     after   the plugin directory afterwards, out  the output directory afterwards
     temps   packages next to the plugin's that were not there before
     snap    [ok, files]: the package as the compiler found it (or as it was left), tmp its import path
     commit, t, t2  commit, and the seconds at its beginning and end
     over, inner    the builds that took place, more than a second after its start, while it stood still; whether it is one of these *)

GoImage(S, f, p, tmp) == [dir |-> f.dir, name |-> f.name, go |-> TRUE,
                          pkg |-> IF f.dir = <<>> THEN "main" ELSE f.pkg,
                          imps |-> [i \in DOMAIN f.imps |-> Redirect(f.imps[i], BaseOf(S, p), tmp)],
                          rest |-> f.rest]
Strip(f, what) == CASE what = "sel" -> [dir |-> f.dir, name |-> f.name, c |-> IF f.go THEN f.rest ELSE f.raw]
                    [] what = "iso" -> [dir |-> f.dir, name |-> f.name, pkg |-> f.pkg, imps |-> f.imps]

EDyn(S, e) ==
  LET src  == S.src[e.p]
      o    == e.o
      tags == CRng(o.tags)
      mis  == Missing(src, tags)
      calm == e.fault = "none" /\ e.sig = "none"
      acc  == Acceptable(src, o)
      ok   == e.exit = 0
      twice == e.sig = "twice"
      after == CRng(e.after)
      so   == e.p \o ".so"
      sure(fs) == {f \in fs : f.name \notin S.left \/ f.name = so}     \* apart from what killed builds left
      out  == CRng(e.out)
      outs == sure(out)
      outs0 == sure(S.dout)
      others(fs) == {f \in fs : f.name # so}
      snap == CRng(e.snap.files)
      user == {f \in snap : ~IsGen(f)}
      sel  == {f \in src : Selected(f, o)}
      want == {GoImage(S, f, e.p, e.tmp) : f \in {g \in sel : g.go}}
      keep == o.leave \/ ~o.gobuild
      v ==  \* C26
            CV({"C26"}, calm /\ mis # {} /\ ok)
       \cup CV({"C26"}, calm /\ mis # {} /\ ~(mis \subseteq CRng(e.named)))
       \cup CV({"C26"}, calm /\ mis # {} /\ (e.temps # 0 \/ outs # outs0))
       \cup CV({"C21", "C26"}, calm /\ acc /\ ~ok)
            \* C21
       \cup CV({"C21"}, e.sig = "none" /\ (Duplicate(src, o) \/ NonStruct(src, o)) /\ (ok \/ outs # outs0))
            \* C25
       \cup CV({"C25"}, e.exit = -1)
       \cup CV({"C25"}, e.fault # "none" /\ ok)
       \cup CV({"C25"}, S.gen[e.p].st # "any" /\ after # Raws(src) \cup Raws({f \in S.gen[e.p].fs : f.w = e.p}))
       \cup CV({"C25"}, ~(Raws(src) \subseteq after))
       \cup CV({"C25"}, ~keep /\ ~twice /\ e.temps # 0)
       \cup CV({"C25"}, ok /\ keep /\ e.temps # 1)
       \cup CV({"C25"}, e.temps > 1)
       \cup CV({"C25"}, ~ok /\ IF twice THEN ~(others(outs0) \subseteq others(outs)) ELSE outs # outs0)
       \cup CV({"C25"}, ok /\ others(outs) # others(outs0))
       \cup CV({"C25"}, ok /\ o.gobuild /\ ~\E f \in out : f.name = so)
       \cup CV({"C25"}, ok /\ ~o.gobuild /\ outs # outs0)
            \* C23
       \cup CV({"C23"}, calm /\ acc /\ e.snap.ok /\ {Strip(f, "sel") : f \in user} # {Strip(f, "sel") : f \in sel})
       \cup CV({"C23"}, calm /\ acc /\ ok /\ ~e.snap.ok)
            \* C24
       \cup CV({"C24"}, calm /\ acc /\ e.snap.ok /\
                 \E f \in user : f.go /\ \E w \in want : w.dir = f.dir /\ w.name = f.name /\ Strip(w, "iso") # Strip(f, "iso"))
       \cup CV({"C24"}, calm /\ acc /\ (e.inner \/ e.over # <<>>) /\ ~ok)
       \cup CV({"C24"}, e.snap.ok /\ \E i \in CRng(e.over) : S.vers[i].tmp = e.tmp)
       \cup CV({"C24"}, e.snap.ok /\ IsPathPrefix(BaseOf(S, e.p), e.tmp))
       \cup CV({"C24"}, e.snap.ok /\ \E i \in DOMAIN S.vers :
                 LET b == S.vers[i] IN /\ b.tmp = e.tmp
                                       /\ (b.p # e.p \/ b.commit # e.commit \/ b.t2 < e.t))
  IN R([S EXCEPT !.dout = out,
                 !.left = IF twice THEN @ \cup {f.name : f \in others(out) \ others(S.dout)} ELSE @,
                 !.nrun = @ + 1,
                 !.vers = Append(@, [p |-> e.p, src |-> src, o |-> o, tmp |-> e.tmp, made |-> ok /\ o.gobuild, calm |-> calm, par |-> e.inner \/ e.over # <<>>,
                                     commit |-> e.commit, t |-> e.t, t2 |-> e.t2])], v)

-----------------------------------------------------------------------------
(* Plugins that were built are loaded, all of a history into one process.
     b   number of the build, ok  it could be opened
     reg what it registers [k, n, dir]; where  import paths of the packages its live functions and types belong to *)

ELoad(S, e) ==
  LET b == S.vers[e.b] IN
  R(S,      CV({"C21", "C24"}, ~e.ok)
       \cup CV({"C21"} \cup CV({"C25"}, ~b.calm) \cup CV({"C24"}, b.par), e.ok /\ CRng(e.reg) # Reg(b.src, b.o))
       \cup CV({"C24"}, e.ok /\ \E w \in CRng(e.where) : ~IsPathPrefix(b.tmp, w)))

\* its state is counted up: got is what the last call returned, calls how often this version was called
ESide(S, e) == R(S, CV({"C24"}, \E i \in DOMAIN e.cnt : e.cnt[i].got # e.cnt[i].calls))

-----------------------------------------------------------------------------
(* Static linking: one build or cleaning.
     op "build" or "clean", p, o, exit, named
     fs   all files in the directories of all plugins and in the output directory: [w, dir, name, raw], w the plugin or "out" *)

InitFile(p) == "hotswap.staticPluginInit." \o p \o ".go"
SharedFile == "hotswap.staticPlugins.go"
File(w, d, n) == [w |-> w, dir |-> d, name |-> n]
Name(f) == File(f.w, f.dir, f.name)

GenFor(S, p, o) == {File(p, <<>>, "hotswap.main.go"), File(p, <<"hotswapbureau">>, "hotswap.bureau.go"), File("out", <<>>, InitFile(p))}
                   \cup {File(p, d, "hotswap.live.go") : d \in LiveDirs(S.src[p], o)}
UserFiles(S) == UNION {{[w |-> p, dir |-> f.dir, name |-> f.name, raw |-> f.raw] : f \in S.src[p]} : p \in DOMAIN S.src}
                \cup {[w |-> "out", dir |-> f.dir, name |-> f.name, raw |-> f.raw] : f \in S.sout}
Owner(S, f) == IF f.w # "out" THEN f.w
               ELSE IF \E p \in DOMAIN S.src : f.name = InitFile(p) /\ f.dir = <<>>
                       THEN CHOOSE p \in DOMAIN S.src : f.name = InitFile(p)
                       ELSE "shared"

ESta(S, e) ==
  LET src  == S.src[e.p]
      o    == e.o
      fs   == CRng(e.fs)
      user == UserFiles(S)
      gens == {f \in fs : Name(f) \notin {Name(u) : u \in user}}
      of(p) == {f \in gens : Owner(S, f) = p}
      shared == of("shared")
      calm == e.fault = "none"
      ok   == e.exit = 0
      acc  == e.op = "clean" \/ Acceptable(src, o)
      mis  == Missing(src, CRng(o.tags))
      mine == of(e.p)
      g    == S.gen[e.p]
      again == e.op = "build" /\ g.st = "built" /\ g.src = src /\ g.o = o
      built == {p \in DOMAIN S.gen : p # e.p /\ S.gen[p].st = "built"} \cup (IF e.op = "build" /\ ok THEN {e.p} ELSE {})
      v ==  CV({"C22"}, ~(user \subseteq fs))                                              \* user files stay
       \cup CV({"C22"}, \E p \in DOMAIN S.gen : p # e.p /\ S.gen[p].st # "any" /\ of(p) # S.gen[p].fs)  \* and so does what others have
       \cup CV({"C22"}, \E f \in shared : f.name # SharedFile \/ f.dir # <<>>)               \* nothing else
       \cup CV({"C22"}, ok /\ e.op = "clean" /\ mine # {})
       \cup CV({"C22"}, ok /\ e.op = "build" /\ {Name(f) : f \in mine} # GenFor(S, e.p, o))
       \cup CV({"C22"}, ok /\ again /\ mine # g.fs)
       \cup CV({"C22"}, built # {} /\ shared = {})
       \cup CV({"C22"}, calm /\ e.op = "clean" /\ ~ok)
       \cup CV({"C21", "C22", "C26"}, calm /\ e.op = "build" /\ acc /\ ~ok)
       \cup CV({"C26"}, calm /\ e.op = "build" /\ mis # {} /\ ok)
       \cup CV({"C26"}, calm /\ e.op = "build" /\ mis # {} /\ ~Duplicate(src, o) /\ ~NonStruct(src, o) /\ ~(mis \subseteq CRng(e.named)))
       \cup CV({"C21"}, calm /\ e.op = "build" /\ ok /\ (Duplicate(src, o) \/ NonStruct(src, o)))
       \cup CV({"C25"}, e.exit = -1)
  IN R([S EXCEPT !.gen = CPut(@, e.p, [st |-> IF ~ok THEN "any" ELSE IF e.op = "clean" THEN "none" ELSE "built",
                                       fs |-> mine, src |-> src, o |-> o]),
                 !.nrun = @ + 1], v)

-----------------------------------------------------------------------------
(* The output package of static linking is compiled and its plugins are loaded.
     ok   it could be compiled, reg the registered plugins: [p, name, live, calls] *)

EDrive(S, e) ==
  LET built == {p \in DOMAIN S.gen : S.gen[p].st = "built"}
      reg == CRng(e.reg)
  IN R(S,   CV({"C22"}, ~e.ok)
       \cup CV({"C22"}, e.ok /\ ({r.p : r \in reg} # built \/ Cardinality(reg) # Cardinality(built) \/ \E r \in reg : r.name # r.p))
       \cup CV({"C22"}, e.ok /\ \E r \in reg : CRng(r.wrong) # {})
       \cup CV({"C21", "C22"}, e.ok /\ \E r \in reg : r.p \in built /\ CRng(r.live) # Reg(S.gen[r.p].src, S.gen[r.p].o)))

-----------------------------------------------------------------------------
CProc(S, e) == CASE e.e = "src" -> ESrc(S, e)
                 [] e.e = "out" -> EOut(S, e)
                 [] e.e = "sout" -> ESout(S, e)
                 [] e.e = "dyn" -> EDyn(S, e)
                 [] e.e = "load" -> ELoad(S, e)
                 [] e.e = "side" -> ESide(S, e)
                 [] e.e = "sta" -> ESta(S, e)
                 [] e.e = "drive" -> EDrive(S, e)
=============================================================================
