--------------------------- MODULE KreivoPayTrace ---------------------------
(* Judges recorded payments in the real kreivo runtime.                      *)
EXTENDS KreivoPay, Judge

World(j) ==
    [blk |-> j.blk, free |-> j.free, held |-> j.held, dust |-> j.dust, tasks |-> j.tasks, n |-> j.n,
     pays |-> {j.pays[i] : i \in DOMAIN j.pays}, par |-> {j.par[i] : i \in DOMAIN j.par}]
Step(j) == [cfg |-> j.cfg, pre |-> World(j.pre), call |-> j.call, ok |-> j.ok, post |-> World(j.post), ev |-> j.ev]
Holds(j) == ~j.panic /\ "blk" \in DOMAIN j.post /\ KProp(IOEnv.PROP, Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
