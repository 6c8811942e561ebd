--------------------------- MODULE PaymentsTrace ---------------------------
(* Judges recorded steps of the real payments pallet.                        *)
EXTENDS Payments, Judge

World(j) ==
    [blk |-> j.blk, free |-> j.free, held |-> j.held, dust |-> j.dust, tasks |-> j.tasks,
     pays |-> {j.pays[i] : i \in DOMAIN j.pays}, par |-> {j.par[i] : i \in DOMAIN j.par}]
Step(j) == [cfg |-> j.cfg, pre |-> World(j.pre), call |-> j.call, ok |-> j.ok, post |-> World(j.post), ev |-> j.ev]
\* nothing but the calls under test touches the supply or other holds; a call that crashes never holds
Sane(j) == j.post.supply = j.pre.supply /\ j.post.other = j.pre.other
Holds(j) == ~j.panic /\ "blk" \in DOMAIN j.post /\ Prop(IOEnv.PROP, Step(j)) /\ (IOEnv.PROP = "C01" => Sane(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
