---------------------------- MODULE PaymentIdGen ----------------------------
(* Writes the ids on which the code is exercised: all combinations of        *)
(* boundary bytes, and every byte value in every lane over two backgrounds.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Boundary
Combos == [1 .. 8 -> Boundary]
Lanes == {[i \in 1 .. 8 |-> IF i = l THEN v ELSE bg] : l \in 1 .. 8, v \in 0 .. 255, bg \in {0, 165}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[id |-> x] : x \in Combos \cup Lanes}))
=============================================================================
