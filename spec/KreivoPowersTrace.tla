-------------------------- MODULE KreivoPowersTrace --------------------------
(* Judges whom the real kreivo runtime listens to, and what comes of it.     *)
EXTENDS KreivoPowers, Judge

Set(q) == {q[i] : i \in DOMAIN q}
Seats(q) == [c \in {q[i].c : i \in DOMAIN q} |-> (CHOOSE e \in Set(q) : e.c = c).r]
World(j) == [codes |-> Set(j.codes), contracts |-> j.contracts, assets |-> Set(j.assets), bond |-> j.bond, users |-> Set(j.users),
             comms |-> Set(j.comms), seats |-> Seats(j.seats), items |-> Set(j.items), spent |-> j.spent, got |-> j.got]
\* b"modl" b"py/trsry" zeros
Treas == [i \in 1..32 |-> IF i <= 12 THEN <<109, 111, 100, 108, 112, 121, 47, 116, 114, 115, 114, 121>>[i] ELSE 0]
Step(j) == [call |-> j.call, ok |-> j.ok, got |-> IF "got" \in DOMAIN j.x THEN j.x.got ELSE "",
            pr |-> IF "ed" \in DOMAIN j.x THEN j.x ELSE [ed |-> W0, unit |-> W0],
            purse |-> j.cfg.purse, treasury |-> Treas, pre |-> World(j.pre), post |-> World(j.post)]
Holds(j) == ~j.panic /\ "seats" \in DOMAIN j.post /\ C38(Step(j))
ASSUME Verdict(Recs, Holds)
=============================================================================
