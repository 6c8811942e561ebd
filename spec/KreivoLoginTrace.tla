-------------------------- MODULE KreivoLoginTrace --------------------------
(* Judges recorded logins to the real kreivo runtime.                        *)
EXTENDS KreivoLogin, Judge

SetOf(q) == {q[i] : i \in DOMAIN q}
World(j) == [blk |-> j.blk, dev |-> SetOf(j.dev), key |-> SetOf(j.key)]
Step(j) == [call |-> j.call, ok |-> j.ok, as |-> IF j.ok THEN j.x.as ELSE Nobody, pre |-> World(j.pre), post |-> World(j.post)]
Holds(j) == ~j.panic /\ "blk" \in DOMAIN j.post /\ C29(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
