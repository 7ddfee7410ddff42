-------------------------------- MODULE Dync --------------------------------
(***************************************************************************)
(* The observable semantics of dync's untyped containers, views and        *)
(* values.                                                                 *)
(*                                                                         *)
(* The state is a set of named slots.  The first letter of the name gives  *)
(* the kind of object a slot may hold:                                     *)
(*    d  VecDyn     c  VecCopy      b  BoxValue    s  SmallValue           *)
(*    t  a typed Vec<T>             u  a VecDyn after an upcast            *)
(*    e  a VecCopy after an upcast  x, y  a BoxValue, SmallValue after one *)
(* An element is [id, v]: its value, and the identity of the stored object *)
(* (0 for copyable types, whose objects have no identity).  Identities     *)
(* make ownership observable: a move keeps them, a clone makes new ones.   *)
(*                                                                         *)
(* While a view of a slot exists, `view` is the stack of the views derived *)
(* from each other; only view operations are then possible.                *)
(*                                                                         *)
(* Operations are records (Op); Eff(o, ids) is the state and result after  *)
(* o, where ids are the identities of the objects it creates, in order.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES slots,   \* slot name -> [live, ty, cap, el]
          view,    \* Seq([s, off, n, m]); m: mutable
          res,     \* result of the last operation [k, v, t]
          tyi      \* type name -> [copy, word, size]

vars == <<slots, view, res, tyi>>

Huge == 1000000     \* indices from here on stand for very large ones

-----------------------------------------------------------------------------
(* Data *)

Dead == [live |-> FALSE, ty |-> "-", cap |-> "-", el |-> <<>>]
MkC(ty, cap, el) == [live |-> TRUE, ty |-> ty, cap |-> cap, el |-> el]
Mk(ty, el) == MkC(ty, "f", el)
IsCopy(ty) == tyi[ty].copy
IsWord(ty) == tyi[ty].word

Op(op, s, p, ty, i, j, vs, how) ==
    [op |-> op, s |-> s, p |-> p, ty |-> ty, i |-> i, j |-> j, vs |-> vs, how |-> how]

R(k) == [k |-> k, v |-> <<>>, t |-> ""]
RV(k, v) == [k |-> k, v |-> v, t |-> ""]
RT(t) == [k |-> "str", v |-> <<>>, t |-> t]
Bool(b) == R(IF b THEN "true" ELSE "false")

\* New objects of type ty with the given values.
New(ty, vs, ids) == [k \in 1..Len(vs) |-> [id |-> IF IsCopy(ty) THEN 0 ELSE ids[k], v |-> vs[k]]]
Vs(el) == [k \in 1..Len(el) |-> el[k].v]
Rep(n, v) == [k \in 1..n |-> v]
Clones(ty, el, ids) == New(ty, Vs(el), ids)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RotL(q, k) == SubSeq(q, k + 1, Len(q)) \o SubSeq(q, 1, k)
SetEl(sl, s, i, e) == [sl EXCEPT ![s].el[i + 1] = e]

\* The element type's own equality, hash and formatting.
EqV(a, b) == a # 7 /\ b # 7 /\ a % 4 = b % 4
EqSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqV(a[k].v, b[k].v)
HashSeq(el) == [k \in 1..Len(el) |-> el[k].v % 4]
Name(v) == "v" \o ToString(v)
\* Formatting: "p" plain, "a" alternate, "w" with a width of 5, "z" with a sign, a precision of 8,
\* a width of 9, aligned to the right and filled with *.  An element shows the options it is
\* asked to format with: # for alternate, + for a sign, and the precision.  Blanks are printed
\* as _ and line ends as ~.
Dbg1(v, f) == CASE f = "w" -> Name(v) \o "___"
                [] f = "a" -> "#" \o Name(v)
                [] f = "z" -> "****+" \o Name(v) \o ".8"
                [] OTHER -> Name(v)
Formats == {"p", "a", "w", "z"}
RECURSIVE Join(_, _, _)
Join(el, f, k) ==
    IF k > Len(el) THEN ""
    ELSE (IF f = "a" THEN "____" \o Dbg1(el[k].v, f) \o ",~"
          ELSE Dbg1(el[k].v, f) \o (IF k < Len(el) THEN ",_" ELSE "")) \o Join(el, f, k + 1)
DbgSeq(el, f) == IF el = <<>> THEN "[]" ELSE "[" \o (IF f = "a" THEN "~" ELSE "") \o Join(el, f, 1) \o "]"

-----------------------------------------------------------------------------
(* Results of operations: [s: slots, w: view, r: result]. *)

E(s, w, r) == [s |-> s, w |-> w, r |-> r]
Same(r) == E(slots, view, r)
Upd(s, v, r) == E([slots EXCEPT ![s] = v], view, r)
Upd2(s, v, p, w, r) == E([slots EXCEPT ![s] = v, ![p] = w], view, r)

Kind(s) == IF s = "-" THEN "-" ELSE SubSeq(s, 1, 1)
Live(s) == s \in DOMAIN slots /\ slots[s].live
Free(s) == s \in DOMAIN slots /\ ~slots[s].live
L(s) == Len(slots[s].el)
EL(s) == slots[s].el
TY(s) == slots[s].ty
In(s, i) == i >= 0 /\ i < L(s)
At(s, i) == slots[s].el[i + 1]

\* Construction.
EffMk(o, ids) ==
    LET vs == CASE o.how \in {"type", "cap"} -> <<>>
                [] o.how = "size" -> Rep(o.j, o.vs[1])
                [] OTHER -> o.vs
    IN Upd(o.s, Mk(o.ty, New(o.ty, vs, ids)), R("ok"))
EffBox(o, ids) == Upd(o.s, Mk(o.ty, New(o.ty, o.vs, ids)), R("ok"))
EffSmall(o, ids) ==
    IF IsWord(o.ty) THEN Upd(o.s, Mk(o.ty, New(o.ty, o.vs, ids)), R("ok"))
    ELSE Same(R(IF o.how = "try" THEN "none" ELSE "panic"))
EffFrom(o) == Upd2(o.s, Dead, o.p, Mk(TY(o.s), EL(o.s)), R("ok"))
\* A container whose table offers only the capability `how` from the start.
EffMkU(o, ids) == Upd(o.s, MkC(o.ty, o.how, New(o.ty, o.vs, ids)), R("ok"))
EffTypeFrom(o) == Upd(o.p, MkC(TY(o.s), IF Kind(o.p) \in {"u", "e"} THEN slots[o.s].cap ELSE "f", <<>>), R("ok"))
EffCollect(o) ==
    LET w == SubSeq(EL(o.s), o.i + 1, o.j)
    IN IF w = <<>> THEN Same(R("panic")) ELSE Upd(o.p, MkC(TY(o.s), slots[o.s].cap, w), R("ok"))

\* Consumption.
EffDrop(o) == Upd(o.s, Dead, R("ok"))
EffInto(o) ==
    IF o.ty = TY(o.s) THEN Upd2(o.s, Dead, o.p, Mk(o.ty, EL(o.s)), R("some"))
    ELSE Upd(o.s, Dead, R("none"))
EffCheck(o) == IF o.ty = TY(o.s) THEN Same(R("some")) ELSE Upd(o.s, Dead, R("none"))

\* Growing and shrinking.
EffPush(o, ids) ==
    IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = @ \o New(o.ty, o.vs, ids)], R("some"))
EffPushBox(o) ==
    IF TY(o.s) = TY(o.p)
    THEN Upd2(o.s, [slots[o.s] EXCEPT !.el = @ \o EL(o.p)], o.p, Dead, R("some"))
    ELSE Upd(o.p, Dead, R("none"))
EffPushCl(o, ids) ==
    IF ~In(o.p, o.i) THEN Same(R("panic"))
    ELSE IF TY(o.s) = TY(o.p)
    THEN Upd(o.s, [slots[o.s] EXCEPT !.el = @ \o Clones(TY(o.s), <<At(o.p, o.i)>>, ids)], R("some"))
    ELSE Same(R("none"))
EffPushRef(o) ==
    IF ~In(o.p, o.i) THEN Same(R("panic"))
    ELSE IF TY(o.s) = TY(o.p)
    THEN Upd(o.s, [slots[o.s] EXCEPT !.el = Append(@, At(o.p, o.i))], R("some"))
    ELSE Same(R(IF tyi[TY(o.s)].size = tyi[TY(o.p)].size THEN "none" ELSE "panic"))
EffResize(o, ids) ==
    IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE IF o.j >= Huge THEN Same(R("panic"))
    ELSE IF o.j <= L(o.s) THEN Upd(o.s, [slots[o.s] EXCEPT !.el = SubSeq(@, 1, o.j)], R("some"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = @ \o New(o.ty, Rep(o.j - L(o.s), o.vs[1]), ids)], R("some"))
EffFill(o, ids) ==
    IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = New(o.ty, Rep(Len(@), o.vs[1]), ids)], R("some"))
EffClear(o) == Upd(o.s, [slots[o.s] EXCEPT !.el = <<>>], R("ok"))
EffAppend(o) ==
    IF TY(o.s) = TY(o.p)
    THEN Upd2(o.s, [slots[o.s] EXCEPT !.el = @ \o EL(o.p)], o.p, [slots[o.p] EXCEPT !.el = <<>>], R("some"))
    ELSE Same(R("none"))
EffExtend(o) ==
    IF EL(o.p) = <<>> THEN Same(R("ok"))
    ELSE IF TY(o.s) # TY(o.p) THEN Same(R("panic"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = @ \o EL(o.p)], R("ok"))
\* Extending by (and collecting) the elements of a container with one more of type ty and value
\* vs[1] among them, after the first j.
Mixed(el, j, e) == SubSeq(el, 1, j) \o <<e>> \o SubSeq(el, j + 1, Len(el))
EffExtMix(o, ids) ==
    IF o.ty # TY(o.s) \/ (TY(o.p) # TY(o.s) /\ L(o.p) > 0) THEN Same(R("panic"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = @ \o Mixed(EL(o.p), Min(o.j, L(o.p)), New(o.ty, o.vs, ids)[1])], R("ok"))
EffColMix(o, ids) ==
    IF o.ty # TY(o.s) /\ L(o.s) > 0 THEN Same(R("panic"))
    ELSE Upd(o.p, MkC(o.ty, slots[o.s].cap, Mixed(EL(o.s), Min(o.j, L(o.s)), New(o.ty, o.vs, ids)[1])), R("ok"))
EffRot(o) ==
    IF o.i > L(o.s) THEN Same(R("panic"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = RotL(@, IF o.op = "rotl" THEN o.i ELSE Len(@) - o.i)], R("ok"))

\* Element access.
EffGet(o) ==
    IF ~In(o.s, o.i) THEN Same(R("panic"))
    ELSE IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE Same(RV("val", <<At(o.s, o.i).v>>))
EffSet(o, ids) ==
    IF ~In(o.s, o.i) THEN Same(R("panic"))
    ELSE IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE E(SetEl(slots, o.s, o.i, New(o.ty, o.vs, ids)[1]), view, R("some"))
EffCfs(o, ids) ==
    IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE IF Len(o.vs) # L(o.s) THEN Same(R("panic"))
    ELSE Upd(o.s, [slots[o.s] EXCEPT !.el = New(o.ty, o.vs, ids)], R("some"))

\* Cloning.
EffClone(o, ids) == Upd(o.p, [slots[o.s] EXCEPT !.el = Clones(TY(o.s), @, ids)], R("ok"))
EffToVec(o, ids) ==
    IF o.ty # TY(o.s) THEN Same(R("none"))
    ELSE Upd(o.p, Mk(o.ty, Clones(o.ty, EL(o.s), ids)), R("some"))
EffAppVec(o, ids) ==
    IF TY(o.p) # TY(o.s) THEN Same(R("none"))
    ELSE Upd(o.p, [slots[o.p] EXCEPT !.el = @ \o Clones(TY(o.p), EL(o.s), ids)], R("some"))

\* Values.
EffSwap(o) ==
    IF ~In(o.s, o.i) \/ ~In(o.p, o.j) THEN Same(R("panic"))
    ELSE IF TY(o.s) # TY(o.p) THEN Same(R("ok"))
    ELSE E(SetEl(SetEl(slots, o.s, o.i, At(o.p, o.j)), o.p, o.j, At(o.s, o.i)), view, R("ok"))
EffAssign(o) ==
    IF ~In(o.s, o.i) THEN Same(R("panic"))
    ELSE IF TY(o.s) # TY(o.p) THEN Upd(o.p, Dead, R("ok"))
    ELSE E([SetEl(slots, o.s, o.i, At(o.p, 0)) EXCEPT ![o.p] = Dead], view, R("ok"))
EffCloneFrom(o) ==
    IF ~In(o.s, o.i) \/ ~In(o.p, o.j) THEN Same(R("panic"))
    \* The error tells the types involved.
    ELSE IF TY(o.s) # TY(o.p) THEN Same([k |-> "err", v |-> <<>>, t |-> TY(o.s) \o ">" \o TY(o.p)])
    ELSE E(SetEl(slots, o.s, o.i, [id |-> At(o.s, o.i).id, v |-> At(o.p, o.j).v]), view, R("ok"))
EffCopyVal(o) ==
    IF ~In(o.s, o.i) \/ ~In(o.p, o.j) THEN Same(R("panic"))
    ELSE IF TY(o.s) # TY(o.p) THEN Same(R("none"))
    ELSE E(SetEl(slots, o.s, o.i, At(o.p, o.j)), view, R("some"))
EffBoxOf(o, ids) ==
    IF ~In(o.s, o.i) THEN Same(R("panic"))
    ELSE Upd(o.p, MkC(TY(o.s), slots[o.s].cap, Clones(TY(o.s), <<At(o.s, o.i)>>, ids)), R("ok"))
EffSmallOf(o, ids) ==
    IF ~In(o.s, o.i) \/ ~IsWord(TY(o.s)) THEN Same(R("panic")) ELSE EffBoxOf(o, ids)

EffEq(o) == Same(Bool(TY(o.s) = TY(o.p) /\ EqSeq(EL(o.s), EL(o.p))))
EffEqV(o) ==
    IF ~In(o.s, o.i) \/ ~In(o.p, o.j) THEN Same(R("panic"))
    ELSE Same(Bool(TY(o.s) = TY(o.p) /\ EqV(At(o.s, o.i).v, At(o.p, o.j).v)))
EffHash(o) == Same(RV("vals", HashSeq(EL(o.s))))
EffHashV(o) == IF ~In(o.s, o.i) THEN Same(R("panic")) ELSE Same(RV("vals", HashSeq(<<At(o.s, o.i)>>)))
EffDbg(o) == Same(RT(DbgSeq(EL(o.s), o.how)))
EffDbgV(o) == IF ~In(o.s, o.i) THEN Same(R("panic")) ELSE Same(RT(Dbg1(At(o.s, o.i).v, o.how)))

\* Capabilities. "dyn" is the conversion to a trait object table, "f" the full table.
EffUp(o) == Upd2(o.s, Dead, o.p, MkC(TY(o.s), o.how, EL(o.s)), R("ok"))
\* A table of another type ("w") is refused; the container, which was handed over, is dropped.
EffUndyn(o) == IF o.how = "w" THEN Upd(o.s, Dead, R("panic")) ELSE Upd2(o.s, Dead, o.p, Mk(TY(o.s), EL(o.s)), R("ok"))

-----------------------------------------------------------------------------
(* Views. *)

Top == view[Len(view)]
Win == SubSeq(slots[Top.s].el, Top.off + 1, Top.off + Top.n)
PopV == SubSeq(view, 1, Len(view) - 1)
VTy == slots[Top.s].ty
VPush(off, n, m) == E(slots, Append(view, [s |-> Top.s, off |-> Top.off + off, n |-> n, m |-> m]), R("ok"))
VRepl(off, n, m) == E(slots, Append(PopV, [s |-> Top.s, off |-> Top.off + off, n |-> n, m |-> m]), R("ok"))
VIn(i) == i < Top.n
\* Replaces the window's content.
VSet(w) == LET f == Top IN
    [slots EXCEPT ![f.s].el = SubSeq(@, 1, f.off) \o w \o SubSeq(@, f.off + f.n + 1, Len(@))]
VEff(w, r) == E(VSet(w), view, r)

EffView(o) == E(slots, <<[s |-> o.s, off |-> 0, n |-> L(o.s), m |-> (o.how = "m")]>>, R("ok"))
\* Sub-slicing: start and end of the range o.ty with bounds o.i and o.j.
SubLo(o) == IF o.ty \in {"r", "from", "incl"} THEN o.i ELSE 0
SubHi(o) == CASE o.ty \in {"r", "to"} -> o.j
              [] o.ty \in {"incl", "toincl"} -> o.j + 1
              [] OTHER -> Top.n
SubOk(o) == SubLo(o) <= SubHi(o) /\ SubHi(o) <= Top.n
EffSub(o) ==
    CASE ~SubOk(o) /\ o.how = "i" -> E(slots, PopV, R("panic"))
      [] ~SubOk(o) -> Same(R("panic"))
      [] o.how = "i" -> VRepl(SubLo(o), SubHi(o) - SubLo(o), Top.m)
      [] OTHER -> VPush(SubLo(o), SubHi(o) - SubLo(o), o.how = "m")
EffSplit(o) ==
    IF o.i > Top.n THEN Same(R("panic"))
    ELSE IF o.how = "l" THEN VPush(0, o.i, Top.m) ELSE VPush(o.i, Top.n - o.i, Top.m)
EffChunk(o) ==
    IF o.i = 0 THEN Same(R("panic"))
    ELSE IF o.i >= Huge \/ (o.j + 1) * o.i > Top.n THEN Same(R("none"))
    ELSE VPush(o.j * o.i, o.i, o.how = "m")
EffReb(o) ==
    IF o.how = "i" THEN VRepl(0, Top.n, FALSE) ELSE VPush(0, Top.n, o.how = "m")
EffPop(o) == E(slots, PopV, R("ok"))
EffEnd(o) == E(slots, <<>>, R("ok"))
EffVGet(o) ==
    IF ~VIn(o.i) THEN Same(R("panic"))
    ELSE IF o.ty # VTy THEN Same(R("none"))
    ELSE Same(RV("val", <<Win[o.i + 1].v>>))
EffVSetAt(o, ids) ==
    IF ~VIn(o.i) THEN Same(R("panic"))
    ELSE IF o.ty # VTy THEN Same(R("none"))
    ELSE VEff([Win EXCEPT ![o.i + 1] = New(o.ty, o.vs, ids)[1]], R("some"))
EffVSwap(o) ==
    IF ~VIn(o.i) \/ ~VIn(o.j) THEN Same(R("panic"))
    ELSE VEff([Win EXCEPT ![o.i + 1] = Win[o.j + 1], ![o.j + 1] = Win[o.i + 1]], R("ok"))
EffVRot(o) ==
    IF o.i > Top.n THEN Same(R("panic"))
    ELSE VEff(RotL(Win, IF o.op = "vrotl" THEN o.i ELSE Top.n - o.i), R("ok"))
EffVCfs(o, ids) ==
    IF o.ty # VTy THEN Same(R("none"))
    ELSE IF Len(o.vs) # Top.n THEN Same(R("panic"))
    ELSE VEff(New(o.ty, o.vs, ids), R("some"))
\* Split at j, then exchange the first element of the left half with the i-th of the right one.
EffVSplitSwap(o) ==
    IF o.j > Top.n THEN Same(R("panic"))
    ELSE IF o.j = 0 \/ o.i >= Top.n - o.j THEN Same(R("panic"))
    ELSE VEff([Win EXCEPT ![1] = Win[o.j + o.i + 1], ![o.j + o.i + 1] = Win[1]], R("ok"))
EffVList(o) == IF o.ty \notin {"-", VTy} THEN Same(R("none")) ELSE Same(RV("vals", Vs(Win)))
\* All chunks of size i, each followed by a 9.
Chunks(q, k) == [x \in 1..((Len(q) \div k) * (k + 1)) |->
    LET c == (x - 1) \div (k + 1)       \* the chunk, and the place in it
        y == (x - 1) % (k + 1)
    IN IF y = k THEN 9 ELSE q[c * k + y + 1].v]
EffVChunks(o) == IF o.i = 0 THEN Same(R("panic")) ELSE Same(RV("vals", Chunks(Win, o.i)))
EffVDbg(o) == Same(RT(DbgSeq(Win, o.how)))
\* Compares the views of the first i and of the remaining elements.
EffVEq(o) ==
    IF o.i > Top.n THEN Same(R("panic"))
    ELSE Same(Bool(EqSeq(SubSeq(Win, 1, o.i), SubSeq(Win, o.i + 1, Top.n))))
\* The view, upcast to the capability `how`, seen through that capability.
EffVUp(o) ==
    CASE o.how \in {"clone", "drop", "any"} -> Same(RV("vals", Vs(Win)))
      [] o.how = "hash" -> Same(RV("vals", HashSeq(Win)))
      [] o.how \in {"partialeq", "eq"} ->
            Same(RV("vals", [k \in 1..Top.n |-> IF EqV(Win[1].v, Win[k].v) THEN 1 ELSE 0]))
      [] o.how = "debug" -> Same(RT(DbgSeq(Win, "p")))

-----------------------------------------------------------------------------
(* When an operation makes sense. *)

VecK == {"d", "c", "u", "e"}
ValK == {"b", "s", "x", "y"}
\* What elements seen through a table that offers only the capability c can do.
Offers(op, c) ==
    CASE c \in {"-", "f", "dyn"} -> TRUE
      [] op \in {"swap", "assign", "copyval"} -> TRUE
      [] op \in {"clonefrom", "pushcl"} -> c = "clone"
      [] op = "eqv" -> c \in {"partialeq", "eq"}
      [] op = "hashv" -> c = "hash"
      [] op = "dbgv" -> c = "debug"
      [] OTHER -> FALSE
\* Two elements meet behind one kind of table: the full one can be upcast to any other but "dyn".
Meet(op, c1, c2) ==
    /\ Offers(op, c1) /\ Offers(op, c2)
    /\ c1 = c2 \/ (c1 = "f" /\ c2 # "dyn") \/ (c2 = "f" /\ c1 # "dyn")
MeetOk(o) == Meet(o.op, slots[o.s].cap, slots[o.p].cap)
TwoLive(o) == Live(o.s) /\ Live(o.p) /\ o.s # o.p
NoView == view = <<>>

PreOwned(o) ==
    CASE o.op \in {"mk", "mku", "tv", "box", "small"} -> Free(o.s)
      [] o.op \in {"from", "into", "tf", "collect", "colmix", "clone", "tovec", "boxof", "smallof", "down",
                   "up", "undyn"} -> Live(o.s) /\ Free(o.p)
      [] o.op \in {"drop", "check", "checkr", "push", "resize", "fill", "clear", "rotl", "rotr",
                   "reserve", "get", "set", "cfs", "hash", "dbg"} -> Live(o.s)
      [] o.op \in {"hashv", "dbgv"} -> Live(o.s) /\ Offers(o.op, slots[o.s].cap)
      [] o.op \in {"pushbox", "pushref", "append", "extend", "extmix", "appvec"} -> TwoLive(o)
      [] o.op \in {"pushcl", "swap", "assign", "clonefrom", "copyval"} -> TwoLive(o) /\ MeetOk(o)
      \* Whether empty containers of different types are equal is not specified.
      [] o.op = "eq" -> Live(o.s) /\ Live(o.p) /\ (TY(o.s) = TY(o.p) \/ L(o.s) + L(o.p) > 0)
      [] o.op = "eqv" -> Live(o.s) /\ Live(o.p) /\ MeetOk(o)
      [] OTHER -> FALSE

PreView(o) ==
    CASE o.op \in {"sub"} -> (o.how = "m" => Top.m)
      [] o.op \in {"split", "vget", "vlist", "vchunks", "vdbg", "veq", "vup", "pop", "end"} -> TRUE
      [] o.op = "chunk" -> (o.how = "m" => Top.m)
      [] o.op = "reb" -> (o.how \in {"m", "f", "i"} => Top.m)
      [] o.op \in {"vset", "vswap", "vrotl", "vrotr", "vcfs", "vssw"} -> Top.m
      [] OTHER -> FALSE

Pre(o) == IF o.op = "view" THEN NoView /\ Live(o.s)
          ELSE IF NoView THEN PreOwned(o) ELSE PreView(o)

Eff(o, ids) ==
    CASE o.op \in {"mk", "tv"} -> EffMk(o, ids)
      [] o.op = "mku" -> EffMkU(o, ids)
      [] o.op = "box" -> EffBox(o, ids)
      [] o.op = "small" -> EffSmall(o, ids)
      [] o.op = "from" -> EffFrom(o)
      [] o.op = "tf" -> EffTypeFrom(o)
      [] o.op = "collect" -> EffCollect(o)
      [] o.op = "drop" -> EffDrop(o)
      [] o.op \in {"into", "down"} -> EffInto(o)
      [] o.op = "check" -> EffCheck(o)
      [] o.op = "checkr" -> Same(R(IF o.ty = TY(o.s) THEN "some" ELSE "none"))
      [] o.op = "push" -> EffPush(o, ids)
      [] o.op = "pushbox" -> EffPushBox(o)
      [] o.op = "pushcl" -> EffPushCl(o, ids)
      [] o.op = "pushref" -> EffPushRef(o)
      [] o.op = "resize" -> EffResize(o, ids)
      [] o.op = "fill" -> EffFill(o, ids)
      [] o.op = "clear" -> EffClear(o)
      [] o.op = "append" -> EffAppend(o)
      [] o.op = "extend" -> EffExtend(o)
      [] o.op = "extmix" -> EffExtMix(o, ids)
      [] o.op = "colmix" -> EffColMix(o, ids)
      [] o.op \in {"rotl", "rotr"} -> EffRot(o)
      [] o.op = "reserve" -> Same(R(IF o.i >= Huge THEN "panic" ELSE "ok"))
      [] o.op = "get" -> EffGet(o)
      [] o.op = "set" -> EffSet(o, ids)
      [] o.op = "cfs" -> EffCfs(o, ids)
      [] o.op = "clone" -> EffClone(o, ids)
      [] o.op = "tovec" -> EffToVec(o, ids)
      [] o.op = "appvec" -> EffAppVec(o, ids)
      [] o.op = "swap" -> EffSwap(o)
      [] o.op = "assign" -> EffAssign(o)
      [] o.op = "clonefrom" -> EffCloneFrom(o)
      [] o.op = "copyval" -> EffCopyVal(o)
      [] o.op = "boxof" -> EffBoxOf(o, ids)
      [] o.op = "smallof" -> EffSmallOf(o, ids)
      [] o.op = "eq" -> EffEq(o)
      [] o.op = "eqv" -> EffEqV(o)
      [] o.op = "hash" -> EffHash(o)
      [] o.op = "hashv" -> EffHashV(o)
      [] o.op = "dbg" -> EffDbg(o)
      [] o.op = "dbgv" -> EffDbgV(o)
      [] o.op = "up" -> EffUp(o)
      [] o.op = "undyn" -> EffUndyn(o)
      [] o.op = "view" -> EffView(o)
      [] o.op = "sub" -> EffSub(o)
      [] o.op = "split" -> EffSplit(o)
      [] o.op = "chunk" -> EffChunk(o)
      [] o.op = "reb" -> EffReb(o)
      [] o.op = "pop" -> EffPop(o)
      [] o.op = "end" -> EffEnd(o)
      [] o.op = "vget" -> EffVGet(o)
      [] o.op = "vset" -> EffVSetAt(o, ids)
      [] o.op = "vswap" -> EffVSwap(o)
      [] o.op \in {"vrotl", "vrotr"} -> EffVRot(o)
      [] o.op = "vcfs" -> EffVCfs(o, ids)
      [] o.op = "vssw" -> EffVSplitSwap(o)
      [] o.op = "vlist" -> EffVList(o)
      [] o.op = "vchunks" -> EffVChunks(o)
      [] o.op = "vdbg" -> EffVDbg(o)
      [] o.op = "veq" -> EffVEq(o)
      [] o.op = "vup" -> EffVUp(o)

Do(o, ids) ==
    /\ Pre(o) = TRUE   \* (so that TLC does not take each way to satisfy it as a step of its own)
    /\ LET e == Eff(o, ids) IN slots' = e.s /\ view' = e.w /\ res' = e.r
    /\ UNCHANGED tyi

-----------------------------------------------------------------------------
(* What must hold in every state and step, whatever the operations. *)

Ids(sl) == {sl[s].el[k].id : s \in {x \in DOMAIN sl : sl[x].live}, k \in 1..100}
IdList(sl, s) == [k \in 1..Len(sl[s].el) |-> sl[s].el[k].id]
Owned(sl) == UNION {{sl[s].el[k].id : k \in 1..Len(sl[s].el)} : s \in DOMAIN sl} \ {0}
RECURSIVE Total(_, _)
Total(sl, ss) == IF ss = {} THEN 0
    ELSE LET s == CHOOSE x \in ss : TRUE
         IN Cardinality({k \in 1..Len(sl[s].el) : sl[s].el[k].id # 0}) + Total(sl, ss \ {s})

\* C02: an object has one owner.
OneOwner == Cardinality(Owned(slots)) = Total(slots, DOMAIN slots)
\* C01: a container is homogeneous; objects of copyable types have no identity.
Homogeneous == \A s \in DOMAIN slots : slots[s].live =>
    /\ slots[s].ty \in DOMAIN tyi
    /\ \A k \in 1..L(s) : (slots[s].el[k].id = 0) <=> IsCopy(TY(s))
    /\ Kind(s) \in {"c", "e"} => IsCopy(TY(s))
    /\ Kind(s) \in {"s", "y"} => IsWord(TY(s))
    /\ Kind(s) \in ValK => L(s) = 1
DeadIsEmpty == \A s \in DOMAIN slots : ~slots[s].live => slots[s] = Dead
\* C06: a view lies within the view it was derived from, and is mutable only if that is.
ViewsNested == \A k \in 1..Len(view) :
    /\ Live(view[k].s) /\ view[k].s = view[1].s
    /\ view[k].off >= 0 /\ view[k].n >= 0
    /\ view[k].off + view[k].n <= L(view[k].s)
    /\ k > 1 => /\ view[k].off >= view[k - 1].off
                /\ view[k].off + view[k].n <= view[k - 1].off + view[k - 1].n
                /\ view[k].m => view[k - 1].m
Invariant == OneOwner /\ Homogeneous /\ DeadIsEmpty /\ ViewsNested

\* C01: only creating or consuming an object changes its type.
TypeStable == \A s \in DOMAIN slots : slots[s].live /\ slots'[s].live =>
    slots'[s].ty = slots[s].ty /\ slots'[s].cap = slots[s].cap
\* C07: a step that panics changes nothing (an operation that consumes its view ends it; from_dyn! consumes its argument).
PanicUnchanged == res'.k = "panic" =>
    \/ slots' = slots
    \/ \E s \in DOMAIN slots : slots[s].cap = "dyn" /\ slots' = [slots EXCEPT ![s] = Dead]
\* C06: while a view exists only the elements in its window change, and only through a mutable view.
WindowOnly == view # <<>> =>
    \A s \in DOMAIN slots :
        IF s # Top.s THEN slots'[s] = slots[s]
        ELSE /\ Len(slots'[s].el) = L(s)
             /\ \A k \in 1..L(s) : (k <= Top.off \/ k > Top.off + Top.n \/ ~Top.m)
                                        => slots'[s].el[k] = slots[s].el[k]
StepOk == TypeStable /\ PanicUnchanged /\ WindowOnly
=============================================================================
