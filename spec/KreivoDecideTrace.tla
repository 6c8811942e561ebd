-------------------------- MODULE KreivoDecideTrace --------------------------
(* Judges how the real communities decide.                                   *)
EXTENDS KreivoDecide, Judge

\* polls are opened for nothing, and tracks follow rules we know
Fair(j) == (\A i \in DOMAIN j.polls : j.polls[i].fee = 0) /\ \A c \in DOMAIN j.rule : j.rule[c] # 0
Poll(p) == [f \in DOMAIN p \ {"fee"} |-> p[f]]
World(cfg, j) ==
    [f \in DOMAIN j \cup {"rules", "issue"} |->
        CASE f = "polls" -> [i \in DOMAIN j.polls |-> Poll(j.polls[i])]
          [] f = "rules" -> cfg.rules
          [] f = "issue" -> [c \in DOMAIN cfg.coin |-> Total(cfg.coin[c], LAMBDA x : x)]
          [] OTHER -> j[f]]
Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> World(j.cfg, j.pre), post |-> World(j.cfg, j.post)]
Holds(j) == ~j.panic /\ "polls" \in DOMAIN j.post /\ Fair(j.pre) /\ Fair(j.post) /\ C41(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
