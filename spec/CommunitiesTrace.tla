--------------------------- MODULE CommunitiesTrace ---------------------------
(* Judges recorded steps of the real communities pallet.                       *)
EXTENDS Communities, Judge

SetOf(q) == {q[i] : i \in DOMAIN q}
World(j) ==
    [comm |-> j.comm, adm |-> SetOf(j.adm), meth |-> j.meth, items |-> SetOf(j.items), tot |-> j.tot, polls |-> j.polls, votes |-> SetOf(j.votes),
     locks |-> SetOf(j.locks), bal |-> j.bal, cbal |-> j.cbal, rbal |-> j.rbal, frz |-> j.frz, abal |-> j.abal, afrz |-> j.afrz]
Step(j) == [cfg |-> j.cfg, pre |-> World(j.pre), call |-> j.call, ok |-> j.ok, post |-> World(j.post), ev |-> j.ev,
            ctl |-> SetOf(j.post.ctl), ask |-> j.post.ask, frac |-> j.post.frac]
Readable(j) == "comm" \in DOMAIN j.post
Holds(j) == IF j.k = "tally" THEN ~j.panic /\ TallyHolds(j) ELSE
    ~j.panic /\ Readable(j) /\ Prop(IOEnv.PROP, Step(j))
Why(j) == IF j.k = "tally" THEN IF j.panic THEN "" ELSE TallySig(j) ELSE IF Readable(j) THEN Sig(IOEnv.PROP, Step(j), j.panic) ELSE ""
ASSUME VerdictWhy(Recs, Holds, Why)
===============================================================================
