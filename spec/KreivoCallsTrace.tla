-------------------------- MODULE KreivoCallsTrace --------------------------
(* Judges what the real kreivo runtime lets proxies and contracts do.        *)
EXTENDS KreivoCalls, Judge

World(j) == [prox |-> {j.prox[i] : i \in DOMAIN j.prox}, nat |-> j.nat, ast |-> j.ast]
Got(j) == IF "got" \in DOMAIN j.x THEN j.x.got ELSE ""
Step(j) == [call |-> j.call, ok |-> j.ok, got |-> Got(j), may |-> IF "may" \in DOMAIN j.x THEN j.x.may ELSE FALSE,
            pre |-> World(j.pre), post |-> World(j.post)]
P(r) == CASE IOEnv.PROP = "C27" -> C27(r) [] IOEnv.PROP = "C33" -> C33(r)
Holds(j) == ~j.panic /\ "prox" \in DOMAIN j.post /\ P(Step(j))
Why(j) == IF j.panic THEN "" ELSE Known(Step(j))
ASSUME VerdictWhy(Recs, Holds, Why)
=============================================================================
