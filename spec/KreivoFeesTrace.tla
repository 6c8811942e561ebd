--------------------------- MODULE KreivoFeesTrace ---------------------------
(* Judges what the real kreivo runtime charges for transactions.             *)
EXTENDS KreivoFees, Judge

Step(j) == [cfg |-> j.cfg, call |-> j.call, ok |-> j.ok, paid |-> IF "paid" \in DOMAIN j.x THEN j.x.paid ELSE FALSE, pr |-> j.x, pre |-> j.pre, post |-> j.post]
Holds(j) == ~j.panic /\ j.ok /\ "total" \in DOMAIN j.post[1] /\ C39(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
