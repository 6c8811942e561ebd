--------------------------- MODULE KreivoIdsTrace ---------------------------
(* Judges the ids the real kreivo runtime gave to payments.                  *)
EXTENDS KreivoIds, Judge

Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> j.pre, post |-> j.post, id |-> IF j.ok THEN j.x.id ELSE <<>>]
Holds(j) == ~j.panic /\ "issued" \in DOMAIN j.post /\ C26(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
