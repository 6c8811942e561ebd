------------------------- MODULE KreivoAddressTrace -------------------------
(* Judges how the real kreivo runtime resolved addresses.                    *)
EXTENDS KreivoAddress, Judge

World(j) == [rich |-> {j.rich[i] : i \in DOMAIN j.rich}]
Get(j, f) == IF f \in DOMAIN j.x THEN j.x[f] ELSE <<>>
Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> World(j.pre), post |-> World(j.post), a |-> Get(j, "a"), to |-> Get(j, "to")]
Holds(j) == ~j.panic /\ "rich" \in DOMAIN j.post /\ C35(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
