------------------------------- MODULE Marker -------------------------------
(***************************************************************************)
(* Which untyped objects may be sent to, or shared with, another thread.   *)
(*                                                                         *)
(* A capability table demands properties of the element types it admits    *)
(* (`send`, `sync`).  A container does not know more about its elements    *)
(* than that.  Objects access elements in one of three modes:              *)
(*    own  owns the elements           (vectors, values)                   *)
(*    mut  may change or replace them  (mutable views and references)      *)
(*    shr  may read and clone them     (shared views and references)       *)
(*                                                                         *)
(* Required is the permission an object gets.  The transition system below *)
(* passes objects between two threads wherever they are permitted to go;   *)
(* Safe says that no element is then accessed in a way its type forbids.   *)
(* TLC checks Safe with Required, and that granting any permission beyond  *)
(* it violates Safe (tools/markers.py runs both).                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Tables,   \* table name -> [send, sync]: what it demands
          Kinds,    \* kind name -> [mode, tables, must]
          Extra     \* a permission granted by mistake: <<mode, table, perm>> or <<>>

Elems == [send : BOOLEAN, sync : BOOLEAN]
Modes == {"own", "mut", "shr"}
Adm(t) == {e \in Elems : (Tables[t].send => e.send) /\ (Tables[t].sync => e.sync)}

\* What the language says of T, &mut T and &T.
Typed(m, e, p) == IF p = "sync" \/ m = "shr" THEN e.sync ELSE e.send
\* The corresponding untyped object gets a permission if all the typed ones have it.
Required(m, t, p) == \A e \in Adm(t) : Typed(m, e, p)
\* The same without quantifiers: what the table demands decides.
Formula(m, t, p) == IF p = "sync" \/ m = "shr" THEN Tables[t].sync ELSE Tables[t].send
ASSUME \A m \in Modes, t \in DOMAIN Tables, p \in {"send", "sync"} : Required(m, t, p) = Formula(m, t, p)

\* The matrix to compare the code with.
Cell(k, t, p) == [kind |-> k, table |-> t, perm |-> p, allowed |-> Required(Kinds[k].mode, t, p),
                  demanded |-> Kinds[k].must /\ Required(Kinds[k].mode, t, p)]
Matrix == {Cell(k, t, p) : k \in DOMAIN Kinds, t \in DOMAIN Tables, p \in {"send", "sync"}}
Admission == {[table |-> t, send |-> e.send, sync |-> e.sync, admitted |-> (e \in Adm(t))] :
                t \in DOMAIN Tables, e \in Elems}
ASSUME Extra = <<>> => \A c \in {x \in Matrix : x.table \in Kinds[x.kind].tables} : PrintT(<<"CELL", ToJson(c)>>)
ASSUME Extra = <<>> => \A c \in Admission : PrintT(<<"ADM", ToJson(c)>>)

-----------------------------------------------------------------------------
VARIABLES tab, el,
          objs,    \* objects that exist: [mode, at, par]; at: thread; par: the object it borrows from
          lent     \* threads that hold a plain reference to object k: [k, to]
mvars == <<tab, el, objs, lent>>

Granted(m, p) == Required(m, tab, p) \/ Extra = <<m, tab, p>>
Borrowed(k) == \E j \in DOMAIN objs : objs[j].par = k
MutBorrowed(k) == \E j \in DOMAIN objs : objs[j].par = k /\ objs[j].mode = "mut"
Lent(k) == \E x \in lent : x[1] = k
Free == (1..3) \ DOMAIN objs

Init == /\ tab \in DOMAIN Tables /\ el \in Adm(tab)
        /\ objs = (1 :> [mode |-> "own", at |-> 1, par |-> 0]) /\ lent = {}
\* A view is derived by a thread that holds the object, or a reference to it.
Holders(k) == {objs[k].at} \cup {x[2] : x \in {y \in lent : y[1] = k}}
Derive(k, m, th) ==
    /\ Free # {}
    /\ th \in Holders(k)
    /\ m = "mut" => /\ objs[k].mode # "shr" /\ ~Borrowed(k) /\ ~Lent(k) /\ th = objs[k].at
    /\ m = "shr" => ~MutBorrowed(k)
    /\ LET n == CHOOSE x \in Free : TRUE
       IN objs' = (n :> [mode |-> m, at |-> th, par |-> k]) @@ objs
    /\ UNCHANGED <<tab, el, lent>>
\* Moving an object to the other thread: it must not be borrowed.
SendObj(k) ==
    /\ ~Borrowed(k) /\ ~Lent(k) /\ Granted(objs[k].mode, "send")
    /\ objs' = [objs EXCEPT ![k].at = 3 - @]
    /\ UNCHANGED <<tab, el, lent>>
\* Passing a plain reference to it to the other thread.
ShareObj(k) ==
    /\ ~MutBorrowed(k) /\ Granted(objs[k].mode, "sync")
    /\ lent' = lent \cup {<<k, 3 - objs[k].at>>}
    /\ UNCHANGED <<tab, el, objs>>
Unshare(x) == /\ x \in lent /\ lent' = lent \ {x}
              /\ ~\E j \in DOMAIN objs : objs[j].par = x[1] /\ objs[j].at = x[2]
              /\ UNCHANGED <<tab, el, objs>>
DropObj(k) == /\ k # 1 /\ ~Borrowed(k) /\ ~Lent(k)
              /\ objs' = [j \in DOMAIN objs \ {k} |-> objs[j]]
              /\ UNCHANGED <<tab, el, lent>>
Next == \/ \E k \in DOMAIN objs : SendObj(k) \/ ShareObj(k) \/ DropObj(k)
                                  \/ \E m \in {"mut", "shr"}, th \in {1, 2} : Derive(k, m, th)
        \/ \E x \in lent : Unshare(x)
Spec == Init /\ [][Next]_mvars

\* Threads that may now change, replace or drop elements, and threads that may read or clone them.
Excl == {objs[k].at : k \in {j \in DOMAIN objs : objs[j].mode # "shr" /\ ~Borrowed(j) /\ ~Lent(j)}}
Read == {objs[k].at : k \in {j \in DOMAIN objs : ~MutBorrowed(j)}} \cup {x[2] : x \in lent}
Safe == /\ 2 \in Excl => el.send
        /\ {1, 2} \subseteq Read => el.sync
        \* A thread other than the first only reads: they are shared.
        /\ 2 \in Read /\ 2 \notin Excl => el.sync \/ (el.send /\ Read = {2})
=============================================================================
