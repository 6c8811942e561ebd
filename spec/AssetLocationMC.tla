-------------------------- MODULE AssetLocationMC --------------------------
(* An asset id is sent to another chain as a location and comes back; any    *)
(* location built junction by junction may also arrive.                      *)
EXTENDS AssetLocation, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT MaxJunctions, Emit

B2 == {<<0, 0>>, <<1, 0>>, <<255, 255>>}
B4 == {<<0, 0, 0, 0>>, <<7, 0, 0, 0>>, <<255, 255, 255, 255>>}
P4 == {<<0, 0, 0, 0>>, <<255, 255, 0, 0>>, <<0, 0, 1, 0>>, <<255, 255, 255, 255>>}
G16 == {Zeros \o <<>> : Zeros \in {[i \in 1 .. 16 |-> 0],
                                   [i \in 1 .. 16 |-> IF i <= 4 THEN 255 ELSE 0],
                                   [i \in 1 .. 16 |-> IF i = 5 THEN 1 ELSE 0],
                                   [i \in 1 .. 16 |-> 255]}}
Nets == {[n |-> "Polkadot"], [n |-> "Kusama"],
         [n |-> "Ethereum", chain |-> <<1, 0, 0, 0, 0, 0, 0, 0>>],
         [n |-> "Ethereum", chain |-> [i \in 1 .. 8 |-> 255]],
         [n |-> "Westend"], [n |-> "Rococo"], [n |-> "BitcoinCore"], [n |-> "ByGenesis"]}
Good == {x \in Nets : SupportedNetwork(x)}

Junctions == [j : {"Parachain"}, v : P4]
        \cup [j : {"PalletInstance"}, v : {0, AssetsPallet, 255}]
        \cup [j : {"GeneralIndex"}, v : G16]
        \cup [j : {"GlobalConsensus"}, v : Nets]
        \cup [j : {"OnlyChild", "AccountId32", "AccountIndex64", "AccountKey20", "GeneralKey", "Plurality"}, v : {0}]

Paras == [id : B2, pallet : {0, 13, 255}, index : B4]
AssetIds == [t : {"Here"}, index : B4]
       \cup [t : {"Sibling"}, para : Paras]
       \cup [t : {"External"}, network : Good, child : {<<>>} \cup {<<p>> : p \in Paras}]

VARIABLES loc, asset
vars == <<loc, asset>>
Empty == [parents |-> 0, interior |-> <<>>]

Init == \/ asset \in AssetIds /\ loc = ToLocation(asset)
        \/ asset = Refused /\ \E p \in 0 .. 3 : loc = [Empty EXCEPT !.parents = p]
Push == /\ asset = Refused /\ Len(loc.interior) < MaxJunctions
        /\ \E j \in Junctions : loc' = [loc EXCEPT !.interior = Append(@, j)]
        /\ UNCHANGED asset
Next == Push
Spec == Init /\ [][Next]_vars

ThereAndBack == asset # Refused => FromLocation(loc) = asset
BackAndThere == LET a == FromLocation(loc) IN a = Refused \/ ToLocation(a) = loc

(* ---- inputs for the code: every asset id, every location up to three      *)
(* junctions over the alphabet, and every four-junction location within one  *)
(* change of an acceptable one.                                              *)
Kind(k) == {j \in Junctions : j.j = k}
Upto(n) == UNION {[1 .. m -> Junctions] : m \in 0 .. n}
Shape == <<Kind("GlobalConsensus"), Kind("Parachain"), Kind("PalletInstance"), Kind("GeneralIndex")>>
Four == {<<a, b, c, d>> : a \in Shape[1], b \in Shape[2], c \in Shape[3], d \in Shape[4]}
Sample == <<CHOOSE x \in Shape[1] : x.v.n = "Kusama", CHOOSE x \in Shape[2] : x.v = <<0, 0, 0, 0>>,
            CHOOSE x \in Shape[3] : x.v = 0, CHOOSE x \in Shape[4] : x.v = [i \in 1 .. 16 |-> 0]>>
Near == {[Sample EXCEPT ![i] = j] : i \in 1 .. 4, j \in Junctions}
   \cup {Append(Sample, j) : j \in Junctions}
Swapped == {[Sample EXCEPT ![i] = Sample[j], ![j] = Sample[i]] : i \in 1 .. 4, j \in 1 .. 4}
Locations == [parents : 0 .. 3, interior : Upto(Emit) \cup Four \cup Near \cup Swapped]
ShapedThree == [parents : 0 .. 3,
                interior : {<<b, c, d>> : b \in Shape[2], c \in Shape[3], d \in Shape[4]}]
AnyPallet == [parents : {0},
              interior : {<<[j |-> "PalletInstance", v |-> p], [j |-> "GeneralIndex", v |-> g]>> : p \in 0 .. 255, g \in G16}]
Inputs == SetToSeq({[k |-> "loc", loc |-> l] : l \in Locations \cup ShapedThree \cup AnyPallet})
          \o SetToSeq({[k |-> "asset", asset |-> a] : a \in AssetIds})
ASSUME IOEnv.OUT = "" \/ ndJsonSerialize(IOEnv.OUT, Inputs)
=============================================================================
