------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Checks the allocator calls recorded from the real code against Heap.    *)
(* A run ends with everything dropped, and then no block may be left.      *)
(***************************************************************************)
EXTENDS Heap, Json, IOUtils

VARIABLES n, skip
htvars == <<blocks, bufs, n, skip>>

Log == ndJsonDeserialize(IOEnv.TRACE)
None == [x \in {} |-> Block(0, 0)]

Accept(e) ==
    LET b == After(blocks, e.ev, 1) IN
    /\ b # Bad
    /\ \A k \in 1..Len(e.bufs) : BufOk(b, e.bufs[k])
    /\ Apart(e.bufs)
    /\ e.e = "end" => b = None

HInit == blocks = None /\ bufs = <<>> /\ n = 1 /\ skip = TRUE
HNext ==
    /\ n <= Len(Log)
    /\ n' = n + 1
    /\ LET e == Log[n] IN
       CASE e.e = "start" -> blocks' = None /\ bufs' = <<>> /\ skip' = FALSE
         [] skip -> UNCHANGED <<blocks, bufs, skip>>
         [] Accept(e) -> /\ blocks' = After(blocks, e.ev, 1) /\ bufs' = e.bufs
                         /\ skip' = (e.e = "end")
         [] OTHER -> /\ PrintT(<<"REJECT", n, e.e>>)
                     /\ skip' = TRUE /\ UNCHANGED <<blocks, bufs>>
HSpec == HInit /\ [][HNext]_htvars
HInvariant == skip \/ Sound
Done == TLCGet("stats").diameter >= Len(Log) + 1
=============================================================================
