------------------------------- MODULE Batch -------------------------------
(* Trace validation of many independent observations.  The file named by the
   environment variable TRACE holds one JSON record per line; state i means
   "record i is being judged".  A module that extends Batch defines
       Accepted == Verdict(i, Why(Rec(i)))
   where Why(rec) is <<>> when the specification allows the record and a tuple
   explaining the rejection otherwise.  The fan-out 0 -> 1..W, i -> i+W
   lets TLC's workers judge records in parallel. *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

VARIABLE i

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 64
Rec(k) == Trace[k]

Init == i = 0
Next == \/ /\ i = 0
           /\ i' \in 1..(IF N < W THEN N ELSE W)
        \/ /\ i > 0
           /\ i + W <= N
           /\ i' = i + W

Verdict(k, why) ==
    \/ k = 0
    \/ why = <<>>
    \/ PrintT("REJECT " \o ToString(k) \o " " \o ToString(why))
=============================================================================
