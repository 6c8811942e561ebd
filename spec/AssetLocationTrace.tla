------------------------- MODULE AssetLocationTrace -------------------------
(* Judges recorded conversions of the real code.                             *)
EXTENDS AssetLocation, Judge
C13(r) ==
    CASE r.k = "loc" ->
           /\ ~r.panic
           /\ r.asset = FromLocation(r.loc)
           /\ r.asset # Refused => r.back = r.loc
      [] r.k = "asset" ->
           /\ ~r.panic
           /\ r.loc = ToLocation(r.asset)
           /\ r.back = r.asset
      [] r.k = "net" ->
           /\ ~r.panic
           /\ r.ok = SupportedNetwork(r.net)
           /\ r.ok => r.back = r.net
ASSUME Verdict(Recs, C13)
=============================================================================
