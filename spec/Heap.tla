-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Memory behind untyped containers and values: what a sequence of         *)
(* allocator calls made on their behalf has to obey.                       *)
(*                                                                         *)
(* A block has the size and alignment it was allocated with (`blocks`).    *)
(* Containers own blocks (`bufs`: the blocks the elements of every         *)
(* container lie in).  An allocator call is [k, id, s, a, n]:              *)
(*    A  allocates block id of size s, alignment a                         *)
(*    R  resizes block id, said to have size s and alignment a, to n       *)
(*    D  releases block id, said to have size s and alignment a            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES blocks,  \* id -> [s, a]
          bufs     \* Seq of [sl, id, need, al, off, cap]

Block(s, a) == [s |-> s, a |-> a]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

CallOk(b, c) ==
    CASE c.k = "A" -> c.id \notin DOMAIN b
      [] OTHER -> c.id \in DOMAIN b /\ b[c.id] = Block(c.s, c.a)
CallEff(b, c) ==
    CASE c.k = "A" -> (c.id :> Block(c.s, c.a)) @@ b
      [] c.k = "R" -> [b EXCEPT ![c.id].s = c.n]
      [] c.k = "D" -> Without(b, c.id)

\* The blocks after the calls q from the k-th on; a call that is not allowed gives Bad.
Bad == [x \in {0} |-> Block(-1, 0)]
RECURSIVE After(_, _, _)
After(b, q, k) ==
    IF k > Len(q) THEN b
    ELSE IF ~CallOk(b, q[k]) THEN Bad
    ELSE After(CallEff(b, q[k]), q, k + 1)

-----------------------------------------------------------------------------
\* Every container's elements lie in a block of its own, large enough and aligned for them; a
\* typed vector's capacity is that of its block, as its own release of it will assume.
BufOk(b, f) ==
    /\ f.id \in DOMAIN b
    /\ f.off = 0
    /\ b[f.id].s >= f.need
    /\ b[f.id].a % f.al = 0
    /\ f.cap >= 0 => b[f.id] = Block(f.cap, f.al)
Apart(q) == \A i, j \in 1..Len(q) : i # j => q[i].id # q[j].id
Sound == /\ \A k \in 1..Len(bufs) : BufOk(blocks, bufs[k])
         /\ Apart(bufs)
=============================================================================
