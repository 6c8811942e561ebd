-------------------------- MODULE KreivoCrossTrace --------------------------
(* Judges what the real kreivo runtime makes of other chains.                *)
EXTENDS KreivoCross, Judge

World(j) == [held |-> {j.held[i] : i \in DOMAIN j.held}, bond |-> j.bond]
X(j) == IF DOMAIN j.x = {} THEN [none |-> 0] ELSE j.x
Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> World(j.pre), post |-> World(j.post), x |-> X(j)]
Holds(j) == /\ ~j.panic /\ "held" \in DOMAIN j.post
            /\ LET r == Step(j) IN Conforms(j.cfg, r) /\ Backed(j.cfg, r) /\ Outsider(r) /\ OwnCommunity(r)
ASSUME Verdict(Recs, Holds)
=============================================================================
