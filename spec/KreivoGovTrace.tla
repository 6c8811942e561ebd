--------------------------- MODULE KreivoGovTrace ---------------------------
(* Judges what the real kreivo runtime lets authorities do with communities. *)
EXTENDS KreivoGov, Judge

World(j) == [comm |-> Range(j.comm), adm |-> Range(j.adm), meth |-> Range(j.meth), mem |-> Range(j.mem), pool |-> Range(j.pool),
             tracks |-> Range(j.tracks), gov |-> Range(j.gov), polls |-> j.polls]
Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> World(j.pre), post |-> World(j.post), as |-> IF "as" \in DOMAIN j.x THEN j.x.as ELSE <<>>]
Holds(j) == /\ ~j.panic /\ "comm" \in DOMAIN j.post
            /\ LET r == Step(j) IN Conforms(j.cfg, r) /\ C28(j.cfg, r) /\ C36(j.cfg, r)
ASSUME Verdict(Recs, Holds)
=============================================================================
