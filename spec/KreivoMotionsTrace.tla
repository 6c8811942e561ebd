-------------------------- MODULE KreivoMotionsTrace --------------------------
(* Judges how the real collective decides.                                   *)
EXTENDS KreivoMotions, Judge

\* the fee paid is one unit
Fair(j) == \A i \in DOMAIN j.polls : j.polls[i].fee = (IF j.polls[i].by = 0 THEN 0 ELSE 1)
Poll(p) == [f \in DOMAIN p \ {"fee"} |-> p[f]]
World(j) == [j EXCEPT !.polls = [i \in DOMAIN @ |-> Poll(@[i])], !.items = Range(@)]
Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> World(j.pre), post |-> World(j.post)]
Holds(j) == ~j.panic /\ "polls" \in DOMAIN j.post /\ Fair(j.post) /\ C40(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
