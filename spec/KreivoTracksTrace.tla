------------------------- MODULE KreivoTracksTrace -------------------------
(* Judges the tracks of the real kreivo runtime and the polls on them.       *)
EXTENDS KreivoTracks, Judge

Get(j, f, d) == IF f \in DOMAIN j.x THEN j.x[f] ELSE d
Step(j) == [call |-> j.call, ok |-> j.ok, pre |-> j.pre, post |-> j.post, t |-> Get(j, "t", -1), name |-> Get(j, "name", ""),
            app |-> Get(j, "app", <<>>), sup |-> Get(j, "sup", <<>>)]
Holds(j) == ~j.panic /\ "tracks" \in DOMAIN j.post /\ C30(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
