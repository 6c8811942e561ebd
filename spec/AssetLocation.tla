--------------------------- MODULE AssetLocation ---------------------------
(* Local asset ids and the cross-chain locations they stand for.             *)
(* Numbers wider than a byte are byte sequences, low byte first: parachain   *)
(* ids and asset indices of a location are wider (4 and 16 bytes) than those *)
(* an asset id can hold (2 and 4).                                           *)
EXTENDS Naturals, Sequences

CONSTANT AssetsPallet        \* index of the pallet that holds local assets

Refused == [t |-> "Refused"]

RECURSIVE AllZero(_)
AllZero(s) == s = <<>> \/ (Head(s) = 0 /\ AllZero(Tail(s)))
Fits(s, n) == AllZero(SubSeq(s, n + 1, Len(s)))
Narrow(s, n) == SubSeq(s, 1, n)
Widen(s, n) == s \o [i \in 1 .. n - Len(s) |-> 0]

SupportedNetwork(n) == n.n \in {"Polkadot", "Kusama", "Ethereum"}

\* junctions
Is(j, kind) == j.j = kind
IsPara(s) == Len(s) = 3 /\ Is(s[1], "Parachain") /\ Is(s[2], "PalletInstance") /\ Is(s[3], "GeneralIndex")
ParaFits(s) == Fits(s[1].v, 2) /\ Fits(s[3].v, 4)
Para(s) == [id |-> Narrow(s[1].v, 2), pallet |-> s[2].v, index |-> Narrow(s[3].v, 4)]
ParaJunctions(p) == << [j |-> "Parachain", v |-> Widen(p.id, 4)],
                       [j |-> "PalletInstance", v |-> p.pallet],
                       [j |-> "GeneralIndex", v |-> Widen(p.index, 16)] >>

\* location -> asset id, or Refused
FromLocation(l) ==
    LET s == l.interior IN
    CASE /\ l.parents = 2 /\ Len(s) = 1 /\ Is(s[1], "GlobalConsensus")
         /\ SupportedNetwork(s[1].v) ->
           [t |-> "External", network |-> s[1].v, child |-> <<>>]
      [] /\ l.parents = 2 /\ Len(s) = 4 /\ Is(s[1], "GlobalConsensus")
         /\ IsPara(Tail(s)) /\ SupportedNetwork(s[1].v) /\ ParaFits(Tail(s)) ->
           [t |-> "External", network |-> s[1].v, child |-> <<Para(Tail(s))>>]
      [] l.parents = 1 /\ IsPara(s) /\ ParaFits(s) ->
           [t |-> "Sibling", para |-> Para(s)]
      [] /\ l.parents = 0 /\ Len(s) = 2
         /\ Is(s[1], "PalletInstance") /\ s[1].v = AssetsPallet
         /\ Is(s[2], "GeneralIndex") /\ Fits(s[2].v, 4) ->
           [t |-> "Here", index |-> Narrow(s[2].v, 4)]
      [] OTHER -> Refused

\* asset id -> its location
ToLocation(a) ==
    CASE a.t = "Here" ->
           [parents |-> 0, interior |-> << [j |-> "PalletInstance", v |-> AssetsPallet],
                                           [j |-> "GeneralIndex", v |-> Widen(a.index, 16)] >>]
      [] a.t = "Sibling" -> [parents |-> 1, interior |-> ParaJunctions(a.para)]
      [] a.t = "External" ->
           [parents |-> 2,
            interior |-> << [j |-> "GlobalConsensus", v |-> a.network] >>
                         \o IF a.child = <<>> THEN <<>> ELSE ParaJunctions(a.child[1])]
=============================================================================
