------------------------------- MODULE Judge -------------------------------
(* Reads records of the real code and writes which of them a predicate       *)
(* refuses, and optionally which known deviation each refused one is.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Recs == ndJsonDeserialize(IOEnv.RECS)

VerdictWhy(recs, P(_), Why(_)) ==
    LET bad == SetToSeq({i \in DOMAIN recs : ~P(recs[i])})
    IN JsonSerialize(IOEnv.VERDICT, [count |-> Len(recs), bad |-> bad, why |-> [b \in DOMAIN bad |-> Why(recs[bad[b]])]])
Verdict(recs, P(_)) ==
    JsonSerialize(IOEnv.VERDICT, [count |-> Len(recs), bad |-> SetToSeq({i \in DOMAIN recs : ~P(recs[i])})])
=============================================================================
