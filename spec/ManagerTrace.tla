----------------------------- MODULE ManagerTrace -----------------------------
(* Judges recorded steps of the real communities manager.                      *)
EXTENDS Manager, Judge

SetOf(q) == {q[i] : i \in DOMAIN q}
World(j) == [j EXCEPT !.adm = SetOf(@), !.tracks = SetOf(@), !.items = SetOf(@)]
Step(j) == [cfg |-> j.cfg, pre |-> World(j.pre), call |-> j.call, ok |-> j.ok, post |-> World(j.post), ev |-> j.ev]
Once(j) == Len(j.post.items) = Cardinality(SetOf(j.post.items)) /\ Len(j.post.tracks) = Cardinality(SetOf(j.post.tracks))
Holds(j) == ~j.panic /\ "comm" \in DOMAIN j.post /\ Once(j) /\ Prop(IOEnv.PROP, Step(j))
ASSUME Verdict(Recs, Holds)
===============================================================================
