------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* Which straight-line client programs are sound.                          *)
(*                                                                         *)
(* Value 1 is an owner (a container, an untyped value, a typed vector or   *)
(* variable).  Other values are derived from it or from each other, by     *)
(* entry points whose only relevant properties are the class of their      *)
(* source, how it is taken and the class of what they give:                *)
(*   classes  O owner    S shared view   M mutable view                    *)
(*            SI, MI  iterators over shared and mutable views              *)
(*   how      "s" through &source, "m" through &mut source, "i" consuming  *)
(*            the source, "n" the next item of an iterator                 *)
(*                                                                         *)
(* A value holds loans on the values it was derived from; an access to a   *)
(* value spoils the values whose loans conflict with it.  A program that   *)
(* then uses a spoilt value is unsound.                                    *)
(*                                                                         *)
(* How long a shared view of a shared view may last is a matter of taste:  *)
(* it may be tied to the view it came from (loans t), or only to what both *)
(* show (loans l).  Programs that are sound even when tied must be         *)
(* accepted; programs that are unsound even when not must be refused;      *)
(* nothing is said about those between.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Entries,   \* set of [f, h, t]
          MaxLen,    \* statements
          MaxVals    \* values, with the owner

VARIABLES vals, prog, verdict

vars == <<vals, prog, verdict>>

Owner == [c |-> "O", gone |-> FALSE, t |-> {}, l |-> {}, bt |-> FALSE, bl |-> FALSE]
IsMut(c) == c \in {"O", "M", "MI", "SI"}    \* an iterator changes when it is advanced
IsIt(c) == c \in {"SI", "MI"}
N == Len(vals)

Stmt(a, p, e) == [a |-> a, p |-> p, e |-> e]
NoE == [f |-> "-", h |-> "-", t |-> "-"]

\* An access to value p: k is "r", "w" or "x" (moved or dropped).
Conflict(loans, p, k) == \E x \in loans : x.on = p /\ (x.m = "m" \/ k # "r")
Acc(vs, p, k) ==
    [q \in 1..Len(vs) |->
        IF q = p THEN [vs[q] EXCEPT !.gone = @ \/ k = "x"]
        ELSE [vs[q] EXCEPT !.bt = @ \/ Conflict(vs[q].t, p, k), !.bl = @ \/ Conflict(vs[q].l, p, k)]]

\* The value p is used; sound if it has not been spoilt.
Judge(p) == IF vals[p].bl THEN "refuse" ELSE IF vals[p].bt THEN "unspecified" ELSE "run"

Derived(p, e, vs) ==
    LET v == vals[p]
        own == {[on |-> p, m |-> IF e.h = "m" THEN "m" ELSE "s"]}
        keep == e.h \in {"i", "n"}      \* what is derived lasts as long as p itself may
    IN [c |-> e.t, gone |-> FALSE,
        t |-> IF keep THEN v.t ELSE own \cup v.t,
        l |-> IF keep \/ (v.c = "S" /\ e.h = "s") THEN v.l ELSE own \cup v.l,
        bt |-> FALSE, bl |-> FALSE]

Derive(p, e) ==
    /\ N < MaxVals /\ e.f = vals[p].c
    /\ e.h = "m" => IsMut(vals[p].c)
    /\ LET vs == Acc(vals, p, CASE e.h = "s" -> "r" [] e.h \in {"m", "n"} -> "w" [] e.h = "i" -> "x")
       IN vals' = Append(vs, Derived(p, e, vs))
    /\ prog' = Append(prog, Stmt("d", p, e))
    /\ verdict' = Judge(p)

\* Read, write or consume.
Use(p, k) ==
    /\ k = "w" => IsMut(vals[p].c)
    \* Reading an iterator, or what has just been read, is pointless.
    /\ k = "r" => ~IsIt(vals[p].c)
    /\ (Len(prog) > 0 => prog[Len(prog)] # Stmt(k, p, NoE))
    /\ vals' = Acc(vals, p, k)
    /\ prog' = Append(prog, Stmt(k, p, NoE))
    /\ verdict' = Judge(p)

Init == vals = <<Owner>> /\ prog = <<>> /\ verdict = "run"
Next ==
    /\ verdict = "run" /\ Len(prog) < MaxLen
    /\ \E p \in 1..N :
        /\ ~vals[p].gone
        /\ \/ \E e \in Entries : Derive(p, e)
           \/ N > 1 /\ \E k \in {"r", "w", "x"} : Use(p, k)
Spec == Init /\ [][Next]_vars

\* At its end a program may drop iterators and whatever else has a destructor: that is a use too.
EndsWell == \A p \in 1..N : vals[p].gone \/ p = 1 \/ ~IsIt(vals[p].c) \/ ~vals[p].bt
\* The last statement uses a derived value.
Pointed == prog # <<>> /\ prog[Len(prog)].a # "d" /\ prog[Len(prog)].p > 1
Full == Len(prog) = MaxLen

Emit(v) == PrintT(<<"PROG", ToJson([v |-> v, prog |-> prog])>>)
Dump ==
    CASE verdict = "refuse" -> Emit("refuse")
      [] verdict = "run" /\ Full /\ Pointed /\ EndsWell -> Emit("accept")
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* What the loans are for. *)
Live(p) == ~vals[p].gone
\* Of two usable mutable views, neither of which is derived from the other, ... there are none unless
\* both are items of one iterator.
Anc(p) == {x.on : x \in vals[p].t}
MutAlias ==
    \A p, q \in 2..N :
        (p # q /\ Live(p) /\ Live(q) /\ vals[p].c = "M" /\ vals[q].c = "M" /\ ~vals[p].bl /\ ~vals[q].bl)
        => (p \in Anc(q) \/ q \in Anc(p) \/ vals[p].t = vals[q].t)
\* Nothing usable shows what its gone owner held.
Outlive == vals[1].gone => \A p \in 2..N : vals[p].bl
\* Tied is stricter.
Stricter == \A p \in 1..N : vals[p].bl => vals[p].bt
Sound == verdict = "run" => MutAlias /\ Outlive /\ Stricter
=============================================================================
