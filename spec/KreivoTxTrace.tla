---------------------------- MODULE KreivoTxTrace ----------------------------
(* Judges what the real kreivo runtime makes of signed transactions.         *)
EXTENDS KreivoTx, Judge

Step(j) == [call |-> j.call, x |-> j.x, pre |-> j.pre, post |-> j.post,
            taken |-> IF j.call.op = "tx" THEN j.x.taken ELSE TRUE, done |-> IF j.call.op = "tx" THEN j.x.done ELSE TRUE]
P(r) == CASE IOEnv.PROP = "C42" -> C42(r) [] IOEnv.PROP = "C43" -> C43(r)
Holds(j) == ~j.panic /\ j.ok /\ "blk" \in DOMAIN j.post /\ P(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
