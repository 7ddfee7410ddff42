--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Bounded instances of Dync for TLC.  The constants select the slots, the *)
(* element types, the operations and the bounds of a profile (tools/       *)
(* profiles.py).  Every transition that TLC generates is printed, so that  *)
(* the harness can replay every one of them against the real code.         *)
(***************************************************************************)
EXTENDS Dync, Json

CONSTANTS SlotNames,  \* slots
          TypeInfo,   \* type name -> [copy, word, size]
          Use,        \* names of the operations
          Vals,       \* values
          MaxLen,     \* most elements in a container
          MaxView,    \* deepest chain of views
          MkLens,     \* lengths of new containers
          MkHows,     \* kinds of construction
          Oob,        \* whether indices may be out of range
          Wrong,      \* whether requested types may be wrong
          Huges,      \* codes of huge indices
          Caps,       \* capabilities to upcast to
          MaxLive,    \* most live objects
          MkAll,      \* whether construction is possible in every state (else only initially)
          Sim         \* whether this is a simulation: one random operation at a time

VARIABLES last,  \* the last operation
          pick   \* in a simulation, the name of the next operation
mcvars == <<slots, view, res, tyi, last, pick>>

Sel == IF Sim THEN {pick} ELSE Use

Types == DOMAIN TypeInfo
LiveS(ks) == {s \in SlotNames : slots[s].live /\ Kind(s) \in ks}
\* Free slots of one kind are interchangeable: only one of them is used.
FreeK(k) == LET f == {s \in SlotNames : ~slots[s].live /\ Kind(s) = k}
            IN IF f = {} THEN {} ELSE {CHOOSE s \in f : TRUE}
FreeS(ks) == UNION {FreeK(k) : k \in ks}
NLive == Cardinality({s \in SlotNames : slots[s].live})
CopyT == {t \in Types : TypeInfo[t].copy}

\* The types a client may name for slot s: for VecCopy only copyable ones.
Ts(s) == LET all == IF Wrong THEN Types ELSE {TY(s)}
         IN IF Kind(s) \in {"c", "e"} THEN all \cap CopyT ELSE all
TsAny(s) == IF Wrong THEN Types ELSE {TY(s)}
Idx(s) == (0..(L(s) - 1)) \cup
          (IF Oob /\ Kind(s) \in VecK THEN {L(s), L(s) + 1} \cup {Huge + h : h \in Huges} ELSE {})
InIdx(s) == 0..(L(s) - 1)
SeqsOf(n) == IF Sim THEN {[k \in 1..n |-> RandomElement(Vals)]} ELSE [1..n -> Vals]
Seqs == UNION {SeqsOf(n) : n \in MkLens}
One == IF Sim THEN {<<RandomElement(Vals)>>} ELSE {<<v>> : v \in Vals}

O(op, s, p, ty, i, j, vs, how) == Op(op, s, p, ty, i, j, vs, how)

MkAt(s) ==
    LET ts == IF Kind(s) = "c" THEN CopyT ELSE Types
    IN (IF "type" \in MkHows THEN {O("mk", s, "-", t, 0, 0, <<>>, "type") : t \in ts} ELSE {})
       \cup (IF "cap" \in MkHows THEN {O("mk", s, "-", t, i, 0, <<>>, "cap") : t \in ts, i \in {0, 3}} ELSE {})
       \cup (IF "size" \in MkHows THEN {O("mk", s, "-", t, 0, j, v, "size") : t \in ts, j \in MkLens, v \in One} ELSE {})
       \cup (IF "list" \in MkHows THEN {O("mk", s, "-", t, 0, 0, v, "-") : t \in ts, v \in Seqs} ELSE {})

GenMake ==
    IF NLive >= MaxLive \/ (~MkAll /\ NLive > 0) THEN {} ELSE
    (IF "mk" \in Sel THEN UNION {MkAt(s) : s \in FreeS({"d", "c"})} ELSE {})
    \cup (IF "mku" \in Sel THEN 
            {O("mku", s, "-", t, 0, 0, v, c) : s \in FreeS({"u"}), t \in Types, v \in Seqs, c \in Caps}
            \cup {O("mku", s, "-", t, 0, 0, v, c) : s \in FreeS({"e"}), t \in CopyT, v \in Seqs, c \in Caps}
          ELSE {})
    \cup (IF "tv" \in Sel THEN {O("tv", s, "-", t, 0, 0, v, "-") : s \in FreeS({"t"}), t \in Types, v \in Seqs} ELSE {})
    \cup (IF "box" \in Sel THEN {O("box", s, "-", t, 0, 0, v, "-") : s \in FreeS({"b"}), t \in Types, v \in One} ELSE {})
    \cup (IF "small" \in Sel THEN
            {O("small", s, "-", t, 0, 0, v, "try") : s \in FreeS({"s"}), t \in Types, v \in One}
            \cup {O("small", s, "-", t, 0, 0, v, "-") : s \in FreeS({"s"}), t \in Types, v \in One}
          ELSE {})

\* Which target kinds a slot's content may be converted to.
Untyped(s) == IF IsCopy(TY(s)) THEN {"d", "c"} ELSE {"d"}
Fits(p, n) == L(p) + n <= MaxLen

GenFrom(s) == {O("from", s, p, "-", 0, 0, <<>>, "-") : p \in FreeS(Untyped(s))}
GenInto(s) == {O("into", s, p, t, 0, 0, <<>>, "-") : p \in FreeS({"t"}), t \in TsAny(s)}
GenTf(s) == {O("tf", s, p, "-", 0, 0, <<>>, "-") : p \in IF slots[s].cap = "f" THEN FreeS(Untyped(s)) ELSE IF slots[s].cap = "dyn" THEN {} ELSE FreeS({"u"} \cup (IF IsCopy(TY(s)) THEN {"e"} ELSE {}))}
GenCollect(s) == {o \in {O("collect", s, p, "-", i, j, <<>>, "-") :
                    p \in IF slots[s].cap = "dyn" THEN {} ELSE FreeK(Kind(s)), i \in 0..L(s), j \in 1..L(s)} : o.i < o.j}
GenPush(s) == IF ~Fits(s, 1) THEN {} ELSE
    {O("push", s, "-", t, 0, 0, v, "-") : t \in TsAny(s), v \in One}
GenPushBox(s) == IF ~Fits(s, 1) THEN {} ELSE
    {O("pushbox", s, p, "-", 0, 0, <<>>, "-") : p \in LiveS({"b", "x"})}
\* Values that can be seen through a reference to a non-copied, or a copied, value.
RefK == {"d", "b", "s", "t"}
\* Those whose table may offer one capability only.
CapK == {"u", "x", "y"}
OwnEq(c) == c \in {"f", "partialeq", "eq", "dyn"}
CRefS == {s \in LiveS({"c", "t", "e"}) : IsCopy(TY(s))}
GenPushCl(s) == IF ~Fits(s, 1) THEN {} ELSE
    UNION {{O("pushcl", s, p, "-", i, 0, <<>>, "-") : i \in IF TY(p) = TY(s) THEN Idx(p) ELSE InIdx(p)} :
            p \in {x \in LiveS(IF Kind(s) = "d" THEN RefK \cup {"c"} ELSE RefK \cup CapK) \ {s} :
                    Meet("pushcl", slots[s].cap, slots[x].cap)}}
GenPushRef(s) == IF ~Fits(s, 1) THEN {} ELSE
    UNION {{O("pushref", s, p, "-", i, 0, <<>>, "-") : i \in IF TY(p) = TY(s) THEN Idx(p) ELSE InIdx(p)} :
            p \in {x \in CRefS \ {s} : slots[x].cap # "dyn"}}
Cloning(s) == slots[s].cap \in {"f", "clone", "dyn"} \/ Kind(s) = "e"
\* More elements than there can be bytes (which code 4 is not for elements of one byte).
TooMuch == IF Oob THEN {Huge + h : h \in Huges \ {4}} ELSE {}
GenResize(s) == IF ~Cloning(s) THEN {} ELSE
    {O("resize", s, "-", t, 0, j, v, "-") : t \in Ts(s), j \in 0..MaxLen, v \in One}
GenFill(s) == IF ~Cloning(s) THEN {} ELSE
    {O("fill", s, "-", t, 0, 0, v, "-") : t \in Ts(s), v \in One}
GenAppend(s) == {O("append", s, p, "-", 0, 0, <<>>, "-") :
    p \in {x \in LiveS({Kind(s)}) \ {s} : slots[x].cap = slots[s].cap /\ Fits(s, L(x))}}
GenExtend(s) == {O("extend", s, p, "-", 0, 0, <<>>, "-") : p \in {x \in LiveS({"c", "e"}) \ {s} :
    Fits(s, L(x)) /\ (slots[x].cap = slots[s].cap \/ (slots[x].cap = "f" /\ slots[s].cap # "dyn"))}}
GenExtMix(s) == IF slots[s].cap = "dyn" THEN {} ELSE
    UNION {{O("extmix", s, p, t, 0, j, v, "-") : t \in Ts(s), j \in 0..L(p), v \in One} :
        p \in {x \in LiveS({"c", "e"}) \ {s} : Fits(s, L(x) + 1) /\ slots[x].cap = slots[s].cap}}
GenColMix(s) == IF slots[s].cap = "dyn" THEN {} ELSE
    {O("colmix", s, p, t, 0, j, v, "-") :
        t \in Ts(s), j \in 0..L(s), v \in One, p \in IF L(s) >= MaxLen THEN {} ELSE FreeK(Kind(s))}
RotI(s) == (0..L(s)) \cup (IF Oob THEN {L(s) + 1} \cup {Huge + h : h \in Huges} ELSE {})
GenRot(s, op) == {O(op, s, "-", "-", i, 0, <<>>, "-") : i \in RotI(s)}
GenGet(s) == {O("get", s, "-", t, i, 0, <<>>, "-") : t \in Ts(s), i \in InIdx(s)}
             \cup {O("get", s, "-", TY(s), i, 0, <<>>, "-") : i \in Idx(s) \ InIdx(s)}
GenSet(s) == {O("set", s, "-", t, i, 0, v, "-") : t \in Ts(s), i \in InIdx(s), v \in One}
             \cup {O("set", s, "-", TY(s), i, 0, v, "-") : i \in Idx(s) \ InIdx(s), v \in One}
CfsVs(n) == SeqsOf(n) \cup (IF Oob THEN {Rep(n + 1, 0)} \cup (IF n > 0 THEN {Rep(n - 1, 0)} ELSE {}) ELSE {})
GenCfs(s) == {O("cfs", s, "-", t, 0, 0, v, "-") : t \in Ts(s), v \in SeqsOf(L(s))}
             \cup {O("cfs", s, "-", TY(s), 0, 0, v, "-") : v \in CfsVs(L(s))}
GenClone(s) == IF ~Cloning(s) \/ slots[s].cap = "dyn" THEN {} ELSE
    {O("clone", s, p, "-", 0, 0, <<>>, "-") : p \in FreeK(Kind(s))}
GenToVec(s) == IF ~Cloning(s) \/ (slots[s].cap = "dyn" /\ Kind(s) # "e") THEN {} ELSE
    {O("tovec", s, p, t, 0, 0, <<>>, "-") : p \in FreeS({"t"}), t \in Ts(s)}
GenAppVec(s) == {O("appvec", s, p, "-", 0, 0, <<>>, "-") :
    p \in {x \in LiveS({"t"}) : Fits(x, L(s)) /\ (Kind(s) \in {"c", "e"} => IsCopy(TY(x)))}}
Peers(s, op) ==
    LET all == IF Kind(s) \in {"c", "e"} THEN CRefS
               ELSE IF Kind(s) = "t" /\ IsCopy(TY(s)) THEN LiveS(RefK \cup CapK) \cup CRefS
               ELSE LiveS(RefK \cup CapK)
        \* (A copied value behind a dynamic table has no way to be cloned.)
        lost(x) == op = "clonefrom" /\ Kind(x) = "e" /\ slots[x].cap = "dyn"
    IN {p \in all : Meet(op, slots[s].cap, slots[p].cap) /\ ~lost(s) /\ ~lost(p)
                     \* Only copied values meet those of a copied container.
                     /\ (Kind(p) = "e" => s \in CRefS)}
GenPair(s, op) ==
    UNION {{O(op, s, p, "-", i, j, <<>>, "-") : i \in InIdx(s), j \in InIdx(p)}
           \cup (IF TY(s) # TY(p) THEN {} ELSE
                 {O(op, s, p, "-", i, j, <<>>, "-") : i \in Idx(s), j \in InIdx(p)}
                 \cup {O(op, s, p, "-", i, j, <<>>, "-") : i \in InIdx(s), j \in Idx(p)}) :
           p \in (IF op = "copyval" THEN {x \in CRefS : Meet(op, slots[s].cap, slots[x].cap)} ELSE Peers(s, op)) \ {s}}
GenAssign(s) == UNION {{O("assign", s, p, "-", i, 0, <<>>, "-") :
    i \in IF TY(s) = TY(p) THEN Idx(s) ELSE InIdx(s)} :
    p \in {x \in LiveS(ValK) \ {s} : Meet("assign", slots[s].cap, slots[x].cap)}}
GenBoxOf(s) == {O("boxof", s, p, "-", i, 0, <<>>, "-") : p \in (CASE slots[s].cap = "f" -> FreeS({"b"}) [] slots[s].cap = "clone" -> FreeS({"x"}) [] OTHER -> {}), i \in Idx(s)}
GenSmallOf(s) == {O("smallof", s, p, "-", i, 0, <<>>, "-") : p \in (CASE slots[s].cap = "f" -> FreeS({"s"}) [] slots[s].cap = "clone" -> FreeS({"y"}) [] OTHER -> {}), i \in Idx(s)}
GenDown(s) == {O("down", s, p, t, 0, 0, <<>>, "-") : p \in FreeS({"t"}), t \in TsAny(s)}
GenEq(s) == {O("eq", s, p, "-", 0, 0, <<>>, "-") :
    p \in {x \in LiveS({Kind(s)}) : slots[x].cap = slots[s].cap /\ (TY(x) = TY(s) \/ L(x) + L(s) > 0)
            /\ OwnEq(slots[s].cap)}}
GenEqV(s) == UNION {{O("eqv", s, p, "-", i, j, <<>>, "-") : i \in InIdx(s), j \in InIdx(p)} : p \in Peers(s, "eqv")}
GenHash(s) == IF slots[s].cap \notin {"f", "hash", "dyn"} THEN {} ELSE {O("hash", s, "-", "-", 0, 0, <<>>, "-")}
GenHashV(s) == IF ~Offers("hashv", slots[s].cap) THEN {} ELSE {O("hashv", s, "-", "-", i, 0, <<>>, "-") : i \in Idx(s)}
GenDbg(s) == IF Kind(s) = "u" /\ slots[s].cap \notin {"debug", "dyn"} THEN {} ELSE {O("dbg", s, "-", "-", 0, 0, <<>>, f) : f \in Formats}
GenDbgV(s) == IF ~Offers("dbgv", slots[s].cap) THEN {} ELSE {O("dbgv", s, "-", "-", i, 0, <<>>, f) : i \in Idx(s), f \in Formats}
GenUp(s) == IF slots[s].cap # "f" THEN {} ELSE
    {O("up", s, p, "-", 0, 0, <<>>, c) :
        p \in FreeS({CASE Kind(s) = "d" -> "u" [] Kind(s) = "c" -> "e" [] Kind(s) = "b" -> "x" [] OTHER -> "y"}),
        c \in IF Kind(s) \in {"d", "c"} THEN Caps ELSE Caps \ {"dyn"}}
GenUndyn(s) == IF slots[s].cap # "dyn" THEN {} ELSE {O("undyn", s, p, "-", 0, 0, <<>>, f) : p \in FreeS({IF Kind(s) = "e" THEN "c" ELSE "d"}), f \in {"-", "w"}}

U(op, ks, f(_)) == IF op \in Sel THEN UNION {f(s) : s \in LiveS(ks)} ELSE {}
Simple(op, ks) == IF op \in Sel THEN {O(op, s, "-", "-", 0, 0, <<>>, "-") : s \in LiveS(ks)} ELSE {}
AnyK == {"d", "c", "b", "s", "t", "u", "x", "y", "e"}
RotLF(s) == GenRot(s, "rotl")
RotRF(s) == GenRot(s, "rotr")
SwapF(s) == GenPair(s, "swap")
ClFromF(s) == GenPair(s, "clonefrom")
CopyValF(s) == IF s \in CRefS THEN GenPair(s, "copyval") ELSE {}
CheckF(s) == {O("check", s, "-", t, 0, 0, <<>>, "-") : t \in TsAny(s)}
CheckRF(s) == {O("checkr", s, "-", t, 0, 0, <<>>, "-") : t \in TsAny(s)}
ReserveF(s) == {O("reserve", s, "-", "-", i, 0, <<>>, "-") : i \in {0, 1, 5} \cup TooMuch}
ViewF(s) == {O("view", s, "-", "-", 0, 0, <<>>, m) : m \in {"s", "m"}}

GenOwned ==
    GenMake
    \cup U("from", {"t"}, GenFrom) \cup U("into", VecK, GenInto) \cup U("tf", AnyK, GenTf)
    \cup U("collect", {"c", "e"}, GenCollect) \cup Simple("drop", AnyK)
    \cup U("check", {"d", "c", "e"}, CheckF) \cup U("checkr", AnyK \ {"t"}, CheckRF)
    \cup U("push", VecK, GenPush) \cup U("pushbox", {"d", "u"}, GenPushBox)
    \cup U("pushcl", {"d", "u"}, GenPushCl) \cup U("pushref", {"c", "e"}, GenPushRef)
    \cup U("resize", VecK, GenResize) \cup U("fill", VecK, GenFill)
    \cup Simple("clear", VecK) \cup U("append", VecK, GenAppend) \cup U("extend", {"c", "e"}, GenExtend)
    \cup U("extmix", {"c", "e"}, GenExtMix) \cup U("colmix", {"c", "e"}, GenColMix)
    \cup U("rotl", VecK, RotLF) \cup U("rotr", VecK, RotRF) \cup U("reserve", {"c", "e"}, ReserveF)
    \cup U("get", VecK \cup ValK, GenGet) \cup U("set", VecK \cup ValK, GenSet)
    \cup U("cfs", {"d", "c", "e"}, GenCfs) \cup U("clone", AnyK \ {"t"}, GenClone)
    \cup U("tovec", VecK, GenToVec) \cup U("appvec", {"d", "c", "e"}, GenAppVec)
    \cup U("swap", AnyK, SwapF) \cup U("assign", RefK \cup CapK, GenAssign)
    \cup U("clonefrom", AnyK, ClFromF) \cup U("copyval", {"c", "t", "e"}, CopyValF)
    \cup U("boxof", RefK \cup CapK, GenBoxOf) \cup U("smallof", RefK \cup CapK, GenSmallOf) \cup U("down", ValK, GenDown)
    \cup U("eq", {"d", "b", "s"} \cup CapK, GenEq) \cup U("eqv", AnyK, GenEqV)
    \cup U("hash", {"d", "b", "s"} \cup CapK, GenHash) \cup U("hashv", AnyK, GenHashV)
    \cup U("dbg", {"d", "u"}, GenDbg) \cup U("dbgv", AnyK, GenDbgV)
    \cup U("up", {"d", "c", "b", "s"}, GenUp) \cup U("undyn", {"u", "e"}, GenUndyn)
    \cup U("view", {"d", "c", "t"}, ViewF)

-----------------------------------------------------------------------------
V(op, ty, i, j, vs, how) == Op(op, "-", "-", ty, i, j, vs, how)
Deeper == Len(view) < MaxView
VIdx == (0..(Top.n - 1)) \cup (IF Oob THEN {Top.n, Top.n + 1} \cup {Huge + h : h \in Huges} ELSE {})
VPos == (0..Top.n) \cup (IF Oob THEN {Top.n + 1} \cup {Huge + h : h \in Huges} ELSE {})
\* Copyable views are only asked for copyable types.
CView == IsCopy(VTy)
VTs == IF ~Wrong THEN {VTy} ELSE IF Kind(Top.s) = "d" THEN Types ELSE IF CView THEN CopyT ELSE Types
MHows == IF Top.m THEN {"m", "s", "i"} ELSE {"s", "i"}
MS == IF Top.m THEN {"m", "s"} ELSE {"s"}
HiddenEq == Kind(Top.s) = "c" \/ (Kind(Top.s) = "t" /\ CView)
GenSub ==
    {V("sub", t, i, j, <<>>, h) : t \in {"r"}, i \in VPos, j \in VPos, h \in MHows}
    \cup {V("sub", "to", 0, j, <<>>, h) : j \in VPos, h \in MHows}
    \cup {V("sub", "from", i, 0, <<>>, h) : i \in VPos, h \in MHows}
    \cup {V("sub", "full", 0, 0, <<>>, h) : h \in MHows}
    \cup {V("sub", "incl", i, j, <<>>, h) : i \in VPos, j \in VIdx, h \in MHows}
    \cup {V("sub", "toincl", 0, j, <<>>, h) : j \in VIdx, h \in MHows}
SubFine(o) == ~Oob => SubOk(o)
Cap(c) == IF HiddenEq THEN c # "-" ELSE c \notin {"any"}
GenViewOps ==
    (IF Deeper THEN
        (IF "sub" \in Sel THEN {o \in GenSub : SubFine(o)} ELSE {})
        \cup (IF "split" \in Sel THEN {V("split", "-", i, 0, <<>>, h) : i \in VPos, h \in {"l", "r"}} ELSE {})
        \cup (IF "chunk" \in Sel THEN {V("chunk", "-", i, j, <<>>, h) :
                i \in (IF Oob THEN {0} ELSE {}) \cup {1, 2, 3} \cup (IF Oob THEN {Huge + h : h \in Huges} ELSE {}),
                j \in 0..2, h \in MS} ELSE {})
     ELSE {})
    \cup (IF "reb" \in Sel THEN
            {V("reb", "-", 0, 0, <<>>, h) : h \in (IF Deeper THEN IF Top.m THEN {"m", "s", "f"} ELSE {"s"} ELSE {}) \cup (IF Top.m THEN {"i"} ELSE {})}
          ELSE {})
    \cup (IF Sim /\ pick # "pop" THEN {} ELSE
          {V("pop", "-", 0, 0, <<>>, "-"), V("end", "-", 0, 0, <<>>, "-")})
    \cup (IF "vget" \in Sel THEN {V("vget", t, i, 0, <<>>, "-") : t \in VTs, i \in 0..(Top.n - 1)}
                                 \cup {V("vget", VTy, i, 0, <<>>, "-") : i \in VIdx} ELSE {})
    \cup (IF "vset" \in Sel /\ Top.m THEN {V("vset", t, i, 0, v, "-") : t \in VTs, i \in 0..(Top.n - 1), v \in One}
                                 \cup {V("vset", VTy, i, 0, v, "-") : i \in VIdx, v \in One} ELSE {})
    \cup (IF "vswap" \in Sel /\ Top.m THEN {V("vswap", "-", i, j, <<>>, "-") : i \in 0..(Top.n - 1), j \in VIdx}
                                 \cup {V("vswap", "-", i, j, <<>>, "-") : i \in VIdx, j \in 0..(Top.n - 1)} \cup {V("vswap", "-", i, i, <<>>, "-") : i \in VIdx} ELSE {})
    \cup (IF "vrotl" \in Sel /\ Top.m THEN {V(op, "-", i, 0, <<>>, "-") : op \in {"vrotl", "vrotr"}, i \in VPos} ELSE {})
    \cup (IF "vcfs" \in Sel /\ Top.m THEN {V("vcfs", t, 0, 0, v, "-") : t \in VTs, v \in SeqsOf(Top.n)}
                                 \cup {V("vcfs", VTy, 0, 0, v, "-") : v \in CfsVs(Top.n)} ELSE {})
    \cup (IF "vssw" \in Sel /\ Top.m THEN {V("vssw", "-", i, j, <<>>, "-") : i \in VIdx, j \in VPos} ELSE {})
    \cup (IF "vlist" \in Sel THEN {V("vlist", t, 0, 0, <<>>, "-") : t \in VTs \cup {"-"}} ELSE {})
    \cup (IF "vchunks" \in Sel THEN {V("vchunks", "-", i, 0, <<>>, "-") : i \in (IF Oob THEN {0} ELSE {}) \cup {1, 2, 3}} ELSE {})
    \cup (IF "vdbg" \in Sel /\ ~HiddenEq THEN {V("vdbg", "-", 0, 0, <<>>, f) : f \in Formats} ELSE {})
    \cup (IF "veq" \in Sel /\ ~HiddenEq THEN {V("veq", "-", i, 0, <<>>, "-") : i \in VPos} ELSE {})
    \cup (IF "vup" \in Sel THEN {V("vup", "-", 0, 0, <<>>, c) :
            c \in {"clone", "drop", "hash", "partialeq", "eq", "debug"} \cup (IF Kind(Top.s) = "c" THEN {"any"} ELSE {})} ELSE {})

Gen == IF view = <<>> THEN GenOwned ELSE GenViewOps

\* Identities not in use.
Fresh == LET used == Owned(slots)
             top == IF used = {} THEN 0 ELSE CHOOSE x \in used : \A y \in used : y <= x
         IN [k \in 1..(MaxLen + 2) |-> top + k]

MCInit == /\ slots = [s \in SlotNames |-> Dead]
          /\ view = <<>> /\ res = R("ok") /\ tyi = TypeInfo
          /\ last = O("-", "-", "-", "-", 0, 0, <<>>, "-")
          /\ pick = "mk"
MCNext == \E o \in Gen : Do(o, Fresh) /\ last' = o /\ UNCHANGED pick
\* One random operation of a random kind.
Roll(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
ViewOps == {"sub", "split", "chunk", "reb", "vget", "vset", "vswap", "vrotl", "vcfs", "vssw", "vlist",
            "vchunks", "vdbg", "veq", "vup", "pop"}
ViewUse == (Use \cap ViewOps) \cup {"pop"}
OwnedUse == Use \ ViewOps
SimNext ==
    /\ LET c == Roll(Gen) IN
       IF c = {} THEN /\ last' = O("-", "-", "-", "-", 0, 0, <<>>, "-")
                      /\ UNCHANGED <<slots, view, res, tyi>>
       ELSE \E o \in c : Do(o, Fresh) /\ last' = o
    /\ pick' = RandomElement(IF view' = <<>> THEN OwnedUse ELSE ViewUse)
SimSpec == MCInit /\ [][SimNext]_mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars

\* States that differ only in identities behave alike.
Shape == [s \in SlotNames |-> <<slots[s].live, slots[s].ty, slots[s].cap, Vs(slots[s].el)>>]
MCView == <<Shape, view>>

Emit == PrintT(<<"EDGE", ToJson(<<slots, view, last', res', slots', view'>>)>>)
Dump == Emit
Steps == [][StepOk]_vars
=============================================================================
