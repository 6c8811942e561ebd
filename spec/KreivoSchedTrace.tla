-------------------------- MODULE KreivoSchedTrace --------------------------
(* Judges what the real kreivo runtime let be done to scheduled tasks.       *)
EXTENDS KreivoSched, Judge

World(j) == [blk |-> j.blk, tasks |-> {j.tasks[i] : i \in DOMAIN j.tasks}]
Step(j) == [cfg |-> j.cfg, call |-> j.call, ok |-> j.ok, pre |-> World(j.pre), post |-> World(j.post),
            cmp |-> IF "cmp" \in DOMAIN j.x THEN j.x.cmp ELSE ""]
Holds(j) == ~j.panic /\ "blk" \in DOMAIN j.post /\ C32(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
