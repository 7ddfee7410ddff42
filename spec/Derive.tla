------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Capability tables generated from trait hierarchies.                     *)
(*                                                                         *)
(* A module declares traits one after another; each lists capabilities of  *)
(* the standard library and other traits of the module as supertraits, in  *)
(* any order, also ones declared later.  What the tables have to offer is  *)
(* defined by reachability (Offered, Ancestors, Admits).  How the macros   *)
(* find it is modelled next to it: a map from traits to supertraits that   *)
(* is flattened in place, trait by trait in declaration order, then fields *)
(* in a fixed order, and conversions that read fields by name.  TLC checks *)
(* that the two agree for every module (Agree), and prints the modules and *)
(* what a user of them observes: tools/derive.py writes them down as Rust, *)
(* compiles and runs them.                                                 *)
(*                                                                         *)
(* With Given = {} the module is built step by step; otherwise it is one   *)
(* of Given, and containers are built with its tables, upcast and used.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,    \* sequence of the traits' names, in declaration order
          Caps,     \* capabilities the declarations choose from
          MaxOwn,   \* how many of them one trait lists at most
          Given,    \* modules [id, own, par, names]; {}: all
          Elems,    \* element types: name -> set of capabilities
          MaxPath   \* upcasts of one container

Std == {"Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync"}
StdSeq == <<"Drop", "Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync">>
Built == Std \cup {"Drop"}
Implies(c) == IF c = "Eq" THEN {"PartialEq"} ELSE {}

VARIABLES mod,      \* the module: [id, names, own, par]
          phase,    \* "declare", "flatten", "drop", "use"
          k,        \* the next trait to flatten
          map,      \* trait or capability -> supertraits: the macros' map
          use       \* the container in use: [path, elem, n] or <<>>
vars == <<mod, phase, k, map, use>>

Range(s) == {s[i] : i \in DOMAIN s}
Traits == Range(mod.names)
-----------------------------------------------------------------------------
(* What a hierarchy means.                                                 *)

DirectIn(m, x) == IF x \in Range(m.names) THEN m.own[x] \cup m.par[x] ELSE Implies(x)
RECURSIVE Close(_, _)
Close(m, s) == LET n == s \cup UNION {DirectIn(m, x) : x \in s} IN IF n = s THEN s ELSE Close(m, n)
Direct(x) == DirectIn(mod, x)
Reach(x) == Close(mod, Direct(x))
Offered(x) == {"Drop"} \cup (((Reach(x) \cup {x})) \cap Std)
Ancestors(x) == Reach(x) \cap Traits
AcyclicIn(m) == \A t \in Range(m.names) : t \notin Close(m, DirectIn(m, t))
\* Element types: each implements every trait it can; "lone" implements none of the module's.
Implemented(e) == IF e = "lone" THEN {} ELSE {t \in Traits : Offered(t) \subseteq Elems[e] \cup {"Drop"}}
Admits(x, e) == IF x \in Traits THEN x \in Implemented(e)
                ELSE x \in Elems[e] \cup {"Drop"} /\ Implies(x) \subseteq Elems[e]
\* The table of y can be had from that of x: it must, if y is above x, and cannot if it offers more.
Must(x, y) == x \in Traits /\ y \in Reach(x) \cup {"Drop"}
MustNot(x, y) == x # y /\ ~Must(x, y) /\ ~(Offered(y) \subseteq Offered(x))
-----------------------------------------------------------------------------
(* How the macros find it.                                                 *)

RECURSIVE Union(_, _)
Union(m, x) == IF x \notin DOMAIN m THEN {} ELSE m[x] \cup UNION {Union(m, y) : y \in m[x]}
Without(m, x) == [y \in DOMAIN m \ {x} |-> m[y]]
Flat(m, x) == [m EXCEPT ![x] = UNION {Union(Without(m, x), y) \cup {y} : y \in m[x]}]
AddDrop(m) == [x \in DOMAIN m |-> IF x = "Drop" THEN m[x] ELSE m[x] \cup {"Drop"}]
Methods(c) == CASE c = "Drop" -> <<"drop">> [] c = "Clone" -> <<"clone", "clone_from", "clone_into_raw">>
                [] c = "PartialEq" -> <<"eq">> [] c = "Hash" -> <<"hash">> [] c = "Debug" -> <<"fmt">>
                [] OTHER -> <<>>
\* Fields of a derived table, those of the table a conversion produces, and the accessors there are.
RECURSIVE FieldsFrom(_, _)
FieldsFrom(i, s) == IF i > Len(StdSeq) THEN <<>>
                    ELSE (IF StdSeq[i] \in s THEN Methods(StdSeq[i]) ELSE <<>>) \o FieldsFrom(i + 1, s)
Fields(x) == FieldsFrom(1, map[x]) \o (IF x \in Built THEN Methods(x) ELSE <<>>)
Accessors(x) == Range(Fields(x))
\* The built-in tables, as the crate declares them.
BuiltFields(c) == (IF c = "Drop" THEN <<>> ELSE <<"drop">>) \o (IF c = "Eq" THEN <<"eq">> ELSE Methods(c))

Agree ==
    phase = "use" =>
        \A t \in Traits :
            /\ map[t] \cap Built = Offered(t)
            /\ map[t] \cap Traits = Ancestors(t)
            /\ \A s \in map[t] : /\ Accessors(s) \subseteq Accessors(t)
                                 /\ map[s] \subseteq map[t]
                                 /\ s \in Built => Fields(s) = BuiltFields(s)
-----------------------------------------------------------------------------
(* What using a container does to elements 1..n (arguments: 11..10+n, of   *)
(* which the last differs).                                                *)

Clones(n) == [i \in 1..n |-> <<"clone", i, 0>>]
Events(c, n) ==
    CASE c = "Clone" -> [log |-> Clones(n), result |-> "clones"]
      [] c = "CloneFrom" -> [log |-> <<<<"clone_from", 1, 10 + n>>>>, result |-> "assigned"]
      [] c = "PartialEq" -> [log |-> [i \in 1..n |-> <<"eq", i, 10 + i>>], result |-> "false"]
      [] c = "Hash" -> [log |-> [i \in 1..n |-> <<"hash", i, 0>>], result |-> "hashed"]
      [] c = "Debug" -> [log |-> [i \in 1..n |-> <<"fmt", i, 0>>], result |-> "written"]
      [] c = "Drop" -> [log |-> [i \in 1..n |-> <<"drop", i, 0>>], result |-> "dropped"]
Usable == {"Clone", "PartialEq", "Hash", "Debug", "Drop"}
Uses(x) == (Offered(x) \cap Usable) \cup (IF "Clone" \in Offered(x) THEN {"CloneFrom"} ELSE {})
-----------------------------------------------------------------------------
Own0 == {s \in SUBSET Caps : Cardinality(s) <= MaxOwn}
BuiltMap == [c \in Built |-> Implies(c)]

Init == /\ phase = IF Given = {} THEN "declare" ELSE "flatten"
        /\ mod \in (IF Given = {} THEN {[id |-> 0, names |-> <<>>, own |-> <<>>, par |-> <<>>]} ELSE Given)
        /\ map = BuiltMap /\ k = 0 /\ use = <<>>

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Declare(o, p) ==
    /\ phase = "declare" /\ Len(mod.names) < Len(Names)
    /\ LET t == Names[Len(mod.names) + 1]
       IN /\ t \notin p
          /\ mod' = [mod EXCEPT !.names = Append(@, t), !.own = With(@, t, o), !.par = With(@, t, p)]
          /\ AcyclicIn(mod')
    /\ phase' = IF Len(mod'.names) = Len(Names) THEN "flatten" ELSE "declare"
    /\ UNCHANGED <<k, map, use>>

\* The macro reads the declarations, then flattens one after another.
Read ==
    /\ phase = "flatten" /\ k = 0
    /\ map' = [x \in Built \cup Traits |-> IF x \in Traits THEN Direct(x) ELSE BuiltMap[x]]
    /\ k' = 1
    /\ UNCHANGED <<mod, phase, use>>
Flatten ==
    /\ phase = "flatten" /\ k \in 1..Len(mod.names)
    /\ map' = Flat(map, mod.names[k])
    /\ k' = k + 1
    /\ phase' = IF k = Len(mod.names) THEN "drop" ELSE phase
    /\ UNCHANGED <<mod, use>>

Meaning == [id |-> mod.id, names |-> mod.names,
            own |-> mod.own, par |-> mod.par,
            offered |-> [t \in Traits |-> Offered(t)],
            admits |-> [t \in Traits |-> {e \in DOMAIN Elems : Admits(t, e)}],
            must |-> [t \in Traits |-> {y \in Traits \cup Built : Must(t, y)}],
            mustnot |-> [t \in Traits |-> {y \in Traits \cup Built : MustNot(t, y)}]]
Finish ==
    /\ phase = "drop"
    /\ map' = AddDrop(map)
    /\ phase' = "use"
    /\ PrintT(<<"MODULE", ToJson(Meaning)>>)
    /\ UNCHANGED <<mod, k, use>>

\* The user.
Last(s) == s[Len(s)]
Build(t, e) ==
    /\ phase = "use" /\ use = <<>> /\ Given # {} /\ Admits(t, e)
    /\ use' = [path |-> <<t>>, elem |-> e]
    /\ UNCHANGED <<mod, phase, k, map>>
Upcast(a) ==
    /\ use # <<>> /\ Len(use.path) <= MaxPath /\ Must(Last(use.path), a)
    /\ use' = [use EXCEPT !.path = Append(@, a)]
    /\ UNCHANGED <<mod, phase, k, map>>
Use(c, n) ==
    /\ use # <<>> /\ c \in Uses(Last(use.path))
    /\ PrintT(<<"USE", ToJson([id |-> mod.id, path |-> use.path, elem |-> use.elem, op |-> c, n |-> n, expect |-> Events(c, n)])>>)
    /\ UNCHANGED vars
Tables == Traits \cup (IF mod.id = 0 THEN Built ELSE {})
Next == \/ \E o \in Own0, p \in SUBSET Range(Names) : Declare(o, p)
        \/ Read \/ Flatten \/ Finish
        \/ \E t \in Tables, e \in {"full", "other"} : Build(t, e)
        \/ use # <<>> /\ \E a \in Traits \cup Built : Upcast(a)
        \/ use # <<>> /\ \E c \in Usable \cup {"CloneFrom"} : Use(c, 2)
Spec == Init /\ [][Next]_vars

\* The built-in tables.
ASSUME \A c \in Built : PrintT(<<"BUILT", ToJson([table |-> c, offered |-> {"Drop", c} \cup Implies(c),
            admits |-> {e \in DOMAIN Elems : c \in Elems[e] \cup {"Drop"} /\ Implies(c) \subseteq Elems[e]}])>>)
=============================================================================
