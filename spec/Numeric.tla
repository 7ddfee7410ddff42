------------------------------ MODULE Numeric -------------------------------
(***************************************************************************)
(* Converting the elements of an untyped vector to a numeric type.         *)
(*                                                                         *)
(* TLC's integers are too small for the values in question, so numbers are *)
(* binary: [k, neg, b, e] is  (-1)^neg * b * 2^e  where b is a sequence of *)
(* bits, most significant first and without leading zeros (<<>> is zero),  *)
(* when k = "num"; "inf" and "nan" have no bits.  Integer types are given  *)
(* by width and sign, float types by precision and exponent range; what a  *)
(* conversion yields follows from these alone: integers keep their value   *)
(* or become zero, floats are truncated towards zero or become zero, and   *)
(* what is converted to a float is rounded to nearest, ties to even, or    *)
(* overflows to infinity.                                                  *)
(*                                                                         *)
(* The transition system holds one vector: elements are added, and it is   *)
(* converted (Cast), shown (Show) and dispatched on (Pick) at any time;    *)
(* none of these changes it.  TLC checks Laws, and prints every conversion *)
(* for tools/numeric.py to repeat on the real containers.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sources,  \* element types to start from
          Targets,  \* types to convert to
          Extra     \* source type -> further values, as a sequence

IntTypes == [i8 |-> <<8, TRUE>>, i16 |-> <<16, TRUE>>, i32 |-> <<32, TRUE>>, i64 |-> <<64, TRUE>>,
             u8 |-> <<8, FALSE>>, u16 |-> <<16, FALSE>>, u32 |-> <<32, FALSE>>, u64 |-> <<64, FALSE>>,
             i128 |-> <<128, TRUE>>, u128 |-> <<128, FALSE>>, isize |-> <<64, TRUE>>, usize |-> <<64, FALSE>>]
FloatTypes == [f32 |-> [p |-> 24, min |-> -126, max |-> 127], f64 |-> [p |-> 53, min |-> -1022, max |-> 1023]]
Supported == {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"}

Num(neg, b, e) == [k |-> "num", neg |-> neg, b |-> b, e |-> e]
Zero == Num(FALSE, <<>>, 0)
Inf(neg) == [k |-> "inf", neg |-> neg, b |-> <<>>, e |-> 0]
NaN == [k |-> "nan", neg |-> FALSE, b |-> <<>>, e |-> 0]
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
Max2(a, b) == IF a > b THEN a ELSE b

\* The same number with no trailing zeros: two numbers are equal if these are.
Trim(b, e) == LET ones == {i \in DOMAIN b : b[i] = 1}
                  last == IF ones = {} THEN 0 ELSE CHOOSE i \in ones : \A j \in ones : j <= i
              IN <<SubSeq(b, 1, last), e + Len(b) - last>>
Norm(v) == IF v.k # "num" THEN v
           ELSE LET t == Trim(v.b, v.e) IN IF t[1] = <<>> THEN Num(v.neg, <<>>, 0) ELSE Num(v.neg, t[1], t[2])
-----------------------------------------------------------------------------
(* To integers.                                                            *)

Whole(v) == IF v.b = <<>> THEN <<>>
            ELSE IF v.e >= 0 THEN v.b \o Zeros(v.e)
            ELSE IF -v.e >= Len(v.b) THEN <<>> ELSE SubSeq(v.b, 1, Len(v.b) + v.e)
Top(v) == v.e + Len(v.b) - 1     \* the exponent of the first bit
FitsInt(neg, b, w, signed) ==
    \/ b = <<>>
    \/ ~signed /\ ~neg /\ Len(b) <= w
    \/ signed /\ Len(b) < w
    \/ signed /\ neg /\ Len(b) = w /\ \A i \in 2..w : b[i] = 0
ToInt(v, w, signed) ==
    IF v.k # "num" \/ (v.b # <<>> /\ Top(v) > 200) THEN Zero
    ELSE LET b == Whole(v)
         IN IF b # <<>> /\ FitsInt(v.neg, b, w, signed) THEN Num(v.neg, b, 0) ELSE Zero
-----------------------------------------------------------------------------
(* To floats.                                                              *)

Inc(b) == LET zs == {i \in DOMAIN b : b[i] = 0}
              last == IF zs = {} THEN 0 ELSE CHOOSE i \in zs : \A j \in zs : j <= i
          IN IF zs = {} THEN <<1>> \o Zeros(Len(b)) ELSE SubSeq(b, 1, last - 1) \o <<1>> \o Zeros(Len(b) - last)
Round(v, q) ==  \* to a multiple of 2^q, q > v.e
    LET n == Len(v.b)
        d == q - v.e
        kept == IF d >= n THEN <<>> ELSE SubSeq(v.b, 1, n - d)
        guard == d <= n /\ v.b[n - d + 1] = 1
        sticky == \E i \in Max2(1, n - d + 2)..n : v.b[i] = 1
        odd == kept # <<>> /\ kept[Len(kept)] = 1
    IN Num(v.neg, IF guard /\ (sticky \/ odd) THEN Inc(kept) ELSE kept, q)
ToFloat(v, f) ==
    IF v.k # "num" \/ v.b = <<>> THEN v
    ELSE LET q == Max2(Top(v), f.min) - (f.p - 1)
             r == IF v.e >= q THEN v ELSE Round(v, q)
         IN IF r.b # <<>> /\ Top(r) > f.max THEN Inf(v.neg) ELSE r
-----------------------------------------------------------------------------
Convert(v, t) == IF t \in DOMAIN IntTypes THEN ToInt(v, IntTypes[t][1], IntTypes[t][2]) ELSE ToFloat(v, FloatTypes[t])
\* Whether v is a value of type t.
Is(v, t) == IF t \in DOMAIN IntTypes
            THEN v.k = "num" /\ (v.b # <<>> => v.e >= 0 /\ FitsInt(v.neg, Whole(v), IntTypes[t][1], IntTypes[t][2])) /\ (v.b = <<>> => ~v.neg)
            ELSE v.k = "num" /\ v.b # <<>> =>
                    LET n == Norm(v) f == FloatTypes[t]
                    IN Top(n) <= f.max /\ Len(n.b) <= f.p /\ n.e >= f.min - (f.p - 1)
-----------------------------------------------------------------------------
(* Values at and across the limits of all types.                           *)

Mark(n, s) == [i \in 1..n |-> IF i = 1 \/ i \in s THEN 1 ELSE 0]
Patterns(n) == {Zeros(0), Ones(n)} \cup
    {Mark(n, s \cap 1..n) : s \in {{}, {n}, {2}, {2, n}, {25}, {24, 25}, {25, n}, {24, 25, n}, {54}, {53, 54}, {54, n}, {26}, {24}, {53}}}
        \cup {[Ones(n) EXCEPT ![n] = 0]}
IntVals(t) == {v \in {Num(s, b, 0) : s \in BOOLEAN, b \in UNION {Patterns(n) : n \in 1..IntTypes[t][1]}} :
                 (v.b = <<>> \/ v.b[1] = 1) /\ Is(v, t)}
Exps == {-1080, -1075, -1074, -1073, -1050, -1023, -1022, -1021, -160, -151, -150, -149, -148, -130, -127, -126, -125, -3, -2, -1, 0, 1, 2, 3,
         6, 7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 25, 30, 31, 32, 33, 51, 52, 53, 54, 61, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 500, 1022, 1023}
Lens == {1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 23, 24, 25, 26, 31, 32, 33, 52, 53}
FloatVals(t) == {v \in {Num(s, b, x - Len(b) + 1) : s \in BOOLEAN, x \in Exps,
                          b \in {y \in UNION {Patterns(n) : n \in {m \in Lens : m <= FloatTypes[t].p}} : y # <<>> /\ y[1] = 1}} : Is(v, t)}
                \cup {Zero, Num(TRUE, <<>>, 0), NaN, Inf(TRUE), Inf(FALSE)}
Vals(t) == IF t \in DOMAIN IntTypes THEN IntVals(t) ELSE FloatVals(t)
-----------------------------------------------------------------------------
VARIABLES ty, src, todo
vars == <<ty, src, todo>>

Init == ty \in Sources /\ src = <<>>
        /\ todo = IF ty \in Supported THEN SetToSeq(Vals(ty)) \o Extra[ty] ELSE <<Zero, Zero, Zero>>
\* Elements are added in pieces, so that short vectors are converted too.
Piece == IF Len(src) < 3 THEN 1 ELSE IF Len(src) < 50 THEN 17 ELSE Len(todo)
Push == /\ todo # <<>>
        /\ LET n == IF Piece > Len(todo) THEN Len(todo) ELSE Piece
           IN /\ src' = src \o SubSeq(todo, 1, n)
              /\ todo' = SubSeq(todo, n + 1, Len(todo))
        /\ UNCHANGED ty
Cast(t) == /\ PrintT(<<"CAST", ToJson([from |-> ty, to |-> t, n |-> Len(src), numeric |-> ty \in Supported,
                        out |-> IF ty \in Supported THEN [i \in DOMAIN src |-> Convert(src[i], t)] ELSE <<>>])>>)
           /\ UNCHANGED vars
\* call_numeric_buffer_fn! picks the function for the element type, or none.
Pick == /\ PrintT(<<"PICK", ToJson([from |-> ty, picked |-> IF ty \in Supported THEN ty ELSE "none"])>>)
        /\ UNCHANGED vars
Show == /\ PrintT(<<"SRC", ToJson([from |-> ty, n |-> Len(src), src |-> src])>>)
        /\ UNCHANGED vars
Next == Push \/ Pick \/ Show \/ \E t \in Targets : Cast(t)
Spec == Init /\ [][Next]_vars

\* Conversions to the own type and to a type that has the value change nothing; an integer is zero or
\* the truncated value; no float lies between a number and what it becomes; signs are kept.
Same(a, b) == Norm(a) = Norm(b)
IsZero(v) == v.k = "num" /\ v.b = <<>>
Laws ==
    ty \in Supported /\ (todo = <<>> \/ Len(src) < 20) => \A i \in DOMAIN src : \A t \in Targets :
        LET v == src[i]
            r == Convert(v, t)
        IN /\ Is(r, t)
           /\ t = ty => Same(r, v)
           /\ Is(v, t) => Same(r, v)
           /\ t \in DOMAIN IntTypes /\ ~IsZero(r) => r.b = Whole(v) /\ r.neg = v.neg
           /\ t \in DOMAIN FloatTypes => r.neg = v.neg
           /\ t \in DOMAIN FloatTypes /\ r.k = "num" /\ v.k = "num" /\ ~Same(r, v) =>
                \* Rounding once more does nothing, and the error is at most half of the last place.
                Same(Convert(r, t), r)
=============================================================================
