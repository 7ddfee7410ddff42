-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks logs recorded from the real code against Dync.                   *)
(*                                                                         *)
(* A log is a sequence of runs: a "start" event with the types and the     *)
(* state of all slots, "op" events with an operation, its result and what  *)
(* could be observed after it, and an "end" event after everything has     *)
(* been dropped.  An operation during which a user callback (an element's  *)
(* clone, drop, eq, hash or fmt) panicked has e.f = TRUE; FaultOk says     *)
(* which states it may leave behind.  All others must do exactly what Eff  *)
(* says.                                                                   *)
(*                                                                         *)
(* Events that are not accepted are printed (REJECT) and the rest of their *)
(* run is skipped.                                                         *)
(***************************************************************************)
EXTENDS Dync, Json, IOUtils

VARIABLES n,       \* index of the next event
          leaked,  \* objects that are alive but that nobody owns any more
          skip     \* the present run has been rejected

tvars == <<slots, view, res, tyi, n, leaked, skip>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Range(q) == {q[k] : k \in 1..Len(q)}

\* Identities of new objects are not known in advance.
NewIds == [k \in 1..2000 |-> 0 - k]
Loose(o) == o.op \in {"fill", "cfs", "vcfs"}

\* x: expected, y: observed, z: what was there before.
Same1(e, x, y, z) ==
    /\ x.v = y.v
    /\ \/ x.id >= 0 /\ x.id = y.id
       \/ x.id < 0 /\ (y.id >= e.base \/ (Loose(e.o) /\ y.id = z.id))
SameEl(e, xs, ys, zs) ==
    /\ Len(xs) = Len(ys)
    /\ \A k \in 1..Len(xs) : Same1(e, xs[k], ys[k], IF k <= Len(zs) THEN zs[k] ELSE [id |-> 0, v |-> 0])
SameSlot(e, x, y, z) == x.live = y.live /\ x.ty = y.ty /\ x.cap = y.cap /\ SameEl(e, x.el, y.el, z.el)

\* The state after the event: what was observed, and what must be the case where nothing could be.
Observed(e, sl, w) ==
    [s \in DOMAIN sl |->
        IF s \in DOMAIN e.sl THEN e.sl[s]
        ELSE IF e.vw /\ w # <<>> /\ Len(sl[s].el) >= w[Len(w)].off + Len(e.w)
             THEN LET t == w[Len(w)] IN
                  [sl[s] EXCEPT !.el = SubSeq(@, 1, t.off) \o e.w \o SubSeq(@, t.off + Len(e.w) + 1, Len(@))]
             ELSE sl[s]]

Single(sl) == Cardinality(Owned(sl)) = Total(sl, DOMAIN sl)

SameRes(e, r) == \/ e.r = r
                 \/ e.o.op = "chunk" /\ e.o.i >= Huge /\ e.r.k \in {"none", "panic"}

\* The objects whose destruction is observable.
Tracked(sl) == Owned([s \in {x \in DOMAIN sl : sl[x].live /\ tyi[sl[x].ty].drop} |-> sl[s]])

Accept(e, ef) ==
    /\ SameRes(e, ef.r)
    /\ e.vw = (ef.w # <<>>)
    /\ \A s \in DOMAIN e.sl : SameSlot(e, ef.s[s], e.sl[s], slots[s])
    /\ ef.w # <<>> =>
        LET t == ef.w[Len(ef.w)] IN
        /\ DOMAIN slots \ DOMAIN e.sl = {t.s}
        /\ SameEl(e, SubSeq(ef.s[t.s].el, t.off + 1, t.off + t.n), e.w,
                     SubSeq(slots[t.s].el, t.off + 1, t.off + t.n))
    /\ LET new == Observed(e, ef.s, ef.w) IN
        /\ Single(new)
        /\ Range(e.live) = Tracked(new) \cup leaked
    /\ e.bad = <<>>

\* An earlier fault may have left a state for which the step was not generated.  Which of two
\* mistakes (an index out of range and a wrong type) is reported is not specified, ...
TwiceWrong(o) ==
    CASE o.op \in {"get", "set"} -> ~In(o.s, o.i) /\ o.ty # TY(o.s)
      [] o.op \in {"vget", "vset"} -> ~VIn(o.i) /\ o.ty # VTy
      [] o.op = "cfs" -> Len(o.vs) # L(o.s) /\ o.ty # TY(o.s)
      [] o.op = "vcfs" -> Len(o.vs) # Top.n /\ o.ty # VTy
      [] o.op = "resize" -> o.j >= Huge /\ o.ty # TY(o.s)
      [] o.op \in {"pushcl", "pushref"} -> ~In(o.p, o.i) /\ TY(o.s) # TY(o.p)
      [] o.op = "assign" -> ~In(o.s, o.i) /\ TY(o.s) # TY(o.p)
      [] o.op \in {"swap", "clonefrom", "copyval", "eqv"} ->
            (~In(o.s, o.i) \/ ~In(o.p, o.j)) /\ TY(o.s) # TY(o.p)
      [] OTHER -> FALSE
\* ... nor is whether empty containers of different types are equal.
EmptyEq(o) == o.op = "eq" /\ Live(o.s) /\ Live(o.p) /\ L(o.s) + L(o.p) = 0 /\ TY(o.s) # TY(o.p)
Alts(o) ==
    CASE EmptyEq(o) -> {Same(Bool(TRUE)), Same(Bool(FALSE))}
      [] TwiceWrong(o) -> {Same(R(k)) : k \in {"panic", "none", "err", "false", "ok"}}
                          \cup (IF o.op = "assign" THEN {Upd(o.p, Dead, R("ok"))} ELSE {})
      [] OTHER -> {Eff(o, NewIds)}

-----------------------------------------------------------------------------
(* What a panic in a callback may leave behind. *)

FreshEl(e, x, ty, v) == x.v = v /\ (IF IsCopy(ty) THEN x.id = 0 ELSE x.id >= e.base)
\* Position by position: untouched, replaced by a new object, or overwritten in place.
OldOrNew(e, ty, old, new, vs) ==
    /\ Len(old) = Len(new)
    /\ \A k \in 1..Len(old) :
        \/ new[k] = old[k]
        \/ FreshEl(e, new[k], ty, vs[k])
        \/ new[k].id = old[k].id /\ new[k].v = vs[k]
\* old, followed by clones of the first few of the given values.
Grown(e, ty, old, new, vs) ==
    /\ Len(new) >= Len(old) /\ Len(new) <= Len(old) + Len(vs)
    /\ SubSeq(new, 1, Len(old)) = old
    /\ \A k \in (Len(old) + 1)..Len(new) : FreshEl(e, new[k], ty, vs[k - Len(old)])
\* Of the values given to extmix, those that come before one of a wrong type.
MixedGood(o) ==
    LET p == IF TY(o.p) = TY(o.s) THEN Vs(EL(o.p)) ELSE <<>>
        odd == IF o.ty = TY(o.s) THEN o.vs ELSE <<>>
        j == Min(o.j, L(o.p))
    IN IF L(o.p) > 0 /\ p = <<>> THEN IF j = 0 THEN odd ELSE <<>>
       ELSE SubSeq(p, 1, j) \o odd \o (IF odd = <<>> THEN <<>> ELSE SubSeq(p, j + 1, Len(p)))
PrefixFrom(old, new, m) == Len(new) >= m /\ Len(new) <= Len(old) /\ new = SubSeq(old, 1, Len(new))

Consumed(e, s) == ~e.sl[s].live
Kept(e, s) == e.sl[s] = slots[s]
KeepType(e, s) == e.sl[s].live /\ e.sl[s].ty = TY(s) /\ e.sl[s].cap = slots[s].cap
Others(e, ss) == \A x \in DOMAIN e.sl \ ss : Kept(e, x)

FaultOwned(e) ==
    LET o == e.o
        new == e.sl[o.s].el
    IN
    CASE o.op \in {"drop"} -> Consumed(e, o.s) /\ Others(e, {o.s})
      [] o.op \in {"into", "down", "check", "undyn"} -> Consumed(e, o.s) /\ Others(e, {o.s})
      [] o.op = "push" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ Grown(e, o.ty, EL(o.s), new, IF o.ty = TY(o.s) THEN o.vs ELSE <<>>)
      [] o.op = "pushbox" -> Consumed(e, o.p) /\ Others(e, {o.p})
      [] o.op = "pushcl" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ Grown(e, TY(o.s), EL(o.s), new, IF TY(o.p) = TY(o.s) THEN <<At(o.p, o.i).v>> ELSE <<>>)
      [] o.op = "extend" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ Grown(e, TY(o.s), EL(o.s), new, IF TY(o.p) = TY(o.s) THEN Vs(EL(o.p)) ELSE <<>>)
      [] o.op = "extmix" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ Grown(e, TY(o.s), EL(o.s), new, MixedGood(o))
      [] o.op = "resize" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ IF o.ty # TY(o.s) \/ o.j >= Huge THEN Kept(e, o.s)
               ELSE IF o.j >= L(o.s) THEN Grown(e, o.ty, EL(o.s), new, Rep(o.j - L(o.s), o.vs[1]))
               ELSE PrefixFrom(EL(o.s), new, o.j)
      [] o.op = "clear" -> KeepType(e, o.s) /\ Others(e, {o.s}) /\ PrefixFrom(EL(o.s), new, 0)
      [] o.op = "fill" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ IF o.ty # TY(o.s) THEN Kept(e, o.s)
               ELSE OldOrNew(e, o.ty, EL(o.s), new, Rep(L(o.s), o.vs[1]))
      [] o.op = "cfs" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ IF o.ty # TY(o.s) \/ Len(o.vs) # L(o.s) THEN Kept(e, o.s)
               ELSE OldOrNew(e, o.ty, EL(o.s), new, o.vs)
      [] o.op = "set" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ IF o.ty # TY(o.s) \/ ~In(o.s, o.i) THEN Kept(e, o.s)
               ELSE OldOrNew(e, o.ty, EL(o.s), new, [Vs(EL(o.s)) EXCEPT ![o.i + 1] = o.vs[1]])
      [] o.op = "assign" ->
            /\ Consumed(e, o.p) /\ KeepType(e, o.s) /\ Others(e, {o.s, o.p})
            /\ \/ Kept(e, o.s)
               \/ TY(o.s) = TY(o.p) /\ In(o.s, o.i) /\ new = [EL(o.s) EXCEPT ![o.i + 1] = At(o.p, 0)]
      [] o.op = "clonefrom" ->
            /\ KeepType(e, o.s) /\ Others(e, {o.s})
            /\ \/ Kept(e, o.s)
               \/ TY(o.s) = TY(o.p) /\ new = [EL(o.s) EXCEPT ![o.i + 1].v = At(o.p, o.j).v]
      [] o.op = "appvec" ->
            /\ KeepType(e, o.p) /\ Others(e, {o.p})
            /\ Grown(e, TY(o.p), EL(o.p), e.sl[o.p].el, IF TY(o.p) = TY(o.s) THEN Vs(EL(o.s)) ELSE <<>>)
      \* Everything else reads, or creates something that then does not come into being.
      [] OTHER -> Others(e, {})

FaultView(e) ==
    LET o == e.o IN
    /\ Others(e, {})
    /\ e.vw
    /\ IF o.op \in {"vcfs", "vset"} /\ o.ty = VTy /\ Top.m
       THEN IF o.op = "vcfs" THEN (IF Len(o.vs) = Top.n THEN OldOrNew(e, VTy, Win, e.w, o.vs) ELSE e.w = Win)
            ELSE IF VIn(o.i) THEN OldOrNew(e, VTy, Win, e.w, [Vs(Win) EXCEPT ![o.i + 1] = o.vs[1]]) ELSE e.w = Win
       ELSE e.w = Win

FaultOk(e) ==
    /\ IF view = <<>> THEN ~e.vw /\ FaultOwned(e) ELSE FaultView(e)
    /\ LET new == Observed(e, slots, view) IN
        /\ Single(new)
        /\ Tracked(new) \subseteq Range(e.live)
        \* Whatever was not owned before the operation, nor created by it, is not alive now.
        /\ \A x \in Range(e.live) : x \in Owned(slots) \/ x \in leaked \/ x >= e.base
    /\ e.bad = <<>>

-----------------------------------------------------------------------------
Reject(e) == PrintT(<<"REJECT", n, e.e>>)

Start(e) ==
    /\ slots' = e.sl /\ view' = <<>> /\ res' = R("ok") /\ tyi' = e.types
    /\ leaked' = {} /\ skip' = FALSE

Finish(e) ==
    /\ IF skip \/ (Range(e.live) \subseteq leaked /\ e.bad = <<>>) THEN TRUE ELSE Reject(e)
    /\ UNCHANGED <<slots, view, res, tyi, leaked>> /\ skip' = TRUE

Step(e) ==
    LET efs == IF e.f THEN {} ELSE IF Pre(e.o) \/ EmptyEq(e.o) THEN {x \in Alts(e.o) : Accept(e, x)} ELSE {}
        ok == IF e.f THEN Pre(e.o) /\ FaultOk(e) ELSE efs # {}
        ef == CHOOSE x \in efs : TRUE
        new == IF e.f THEN Observed(e, slots, view) ELSE Observed(e, ef.s, ef.w)
    IN
    IF ok
    THEN /\ slots' = new
         /\ view' = IF e.f THEN view ELSE ef.w
         /\ res' = e.r
         /\ leaked' = Range(e.live) \ Owned(new)
         /\ UNCHANGED <<tyi, skip>>
    ELSE /\ Reject(e)
         /\ skip' = TRUE
         /\ UNCHANGED <<slots, view, res, tyi, leaked>>

TInit == /\ slots = [s \in {"-"} |-> Dead] /\ view = <<>> /\ res = R("ok")
         /\ tyi = [t \in {"-"} |-> [copy |-> TRUE, word |-> TRUE, size |-> 1, drop |-> FALSE]]
         /\ n = 1 /\ leaked = {} /\ skip = TRUE

TNext ==
    /\ n <= Len(Log)
    /\ n' = n + 1
    /\ LET e == Log[n] IN
       CASE e.e = "start" -> Start(e)
         [] e.e = "end" -> Finish(e)
         [] e.e = "op" /\ skip -> UNCHANGED <<slots, view, res, tyi, leaked, skip>>
         [] OTHER -> Step(e)

TSpec == TInit /\ [][TNext]_tvars
\* The accepted states satisfy the invariants of the specification.
TInvariant == skip \/ Invariant
\* The whole log has been read.
Done == TLCGet("stats").diameter >= Len(Log) + 1
=============================================================================
