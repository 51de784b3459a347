------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Plugin.Lookup (C18): which symbol goes into which target. Go's types are *)
(* described by what assignability depends on; the result of a call is a    *)
(* function of the symbol, the target and the name.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* type names -> [named, under, meth]; under is the underlying type as a tuple
\* (a named type is identified by its name, another one by its structure)
T(n, u, m) == [named |-> n # "", id |-> n, under |-> u, meth |-> m]
Types == [
  int     |-> T("int", <<"int">>, {}),
  string  |-> T("string", <<"string">>, {}),
  MyInt   |-> T("MyInt", <<"int">>, {}),
  F0      |-> T("", <<"func">>, {}),
  NF      |-> T("NF", <<"func">>, {}),
  NFM     |-> T("NFM", <<"func">>, {"M"}),
  F1      |-> T("", <<"func", "int">>, {}),
  any     |-> T("", <<"iface", {}>>, {}),
  IfM     |-> T("IfM", <<"iface", {"M"}>>, {"M"}),
  UIfM    |-> T("", <<"iface", {"M"}>>, {"M"}),
  error   |-> T("error", <<"iface", {"Error"}>>, {"Error"}),
  S       |-> T("S", <<"struct", "x">>, {"M"}),
  US      |-> T("", <<"struct", "x">>, {}),
  P       |-> T("P", <<"struct", "y">>, {}),
  E       |-> T("E", <<"string">>, {"Error"}),
  PS      |-> T("", <<"ptr", "S">>, {"M"}),
  PUS     |-> T("", <<"ptr", "US">>, {}),
  PP      |-> T("", <<"ptr", "P">>, {"M"}),
  PPS     |-> T("", <<"ptr", "PS">>, {}),
  Pint    |-> T("", <<"ptr", "int">>, {}),
  PMyInt  |-> T("", <<"ptr", "MyInt">>, {}),
  NPint   |-> T("NPint", <<"ptr", "int">>, {}),
  PPint   |-> T("", <<"ptr", "Pint">>, {}),
  PF0     |-> T("", <<"ptr", "F0">>, {}),
  Pany    |-> T("", <<"ptr", "any">>, {}),
  Sl      |-> T("", <<"slice", "int">>, {}),
  NSl     |-> T("NSl", <<"slice", "int">>, {}),
  Ch      |-> T("", <<"chan", "int">>, {}),
  NCh     |-> T("NCh", <<"chan", "int">>, {}),
  RCh     |-> T("", <<"rchan", "int">>, {}),
  NRCh    |-> T("NRCh", <<"rchan", "int">>, {}),
  Map     |-> T("", <<"map">>, {}),
  NMap    |-> T("NMap", <<"map">>, {})
]
TypeNames == DOMAIN Types

\* the pointer to a type
PtrMeth(t) == CASE t = "S" -> {"M"} [] t = "P" -> {"M"} [] t = "NFM" -> {"M"} [] t = "E" -> {"Error"} [] OTHER -> {}
PtrTo(t) == T("", <<"ptr", t>>, PtrMeth(t))

IsIface(d) == d.under[1] = "iface"

\* assignability (Go specification), of a value of type v to a variable of type t
Assignable(v, t) ==
  \/ v = t
  \/ v.under = t.under /\ (~v.named \/ ~t.named)
  \/ IsIface(t) /\ t.under[2] \subseteq v.meth
  \/ v.under[1] = "chan" /\ t.under[1] = "rchan" /\ v.under[2] = t.under[2] /\ (~v.named \/ ~t.named)

\* symbols: kind "func": a function of (unnamed) type t; "var": a variable of type t; "none": absent; "static": the plugin
\* is linked statically and has no symbols
SymType(s) == IF s.k = "func" THEN Types[s.t] ELSE PtrTo(s.t)

\* targets: kind "ptr": a non-nil pointer to a variable of type t; "nilptr": a nil pointer to t; "nil": nil itself;
\* "value": something that is not a pointer, possibly nil
Outcome(name, s, out) ==
  IF name = "" \/ out.k # "ptr" THEN <<"err", "same">>
  ELSE IF s.k \in {"none", "static"} \/ name # "Sym" THEN <<"notexist", "same">>
  ELSE IF Assignable(SymType(s), Types[out.t]) THEN <<"ok", "self">>
  ELSE IF s.k = "var" /\ Assignable(Types[s.t], Types[out.t]) THEN <<"ok", "elem">>
  ELSE <<"err", "same">>

Syms == [k : {"func"}, t : {"F0", "F1"}] \cup [k : {"var"}, t : TypeNames] \cup [k : {"none", "static"}, t : {"int"}]
Values == {"int", "string", "S", "F0", "nilF0", "Map", "nilMap", "Sl", "nilSl", "Ch", "nilCh", "bool"}
Outs == [k : {"ptr", "nilptr"}, t : TypeNames] \cup [k : {"value"}, t : Values] \cup [k : {"nil"}, t : {"int"}]
Names == {"", "Sym", "sym"}    \* the symbol is called Sym
Cases == Names \X Syms \X Outs
=============================================================================
