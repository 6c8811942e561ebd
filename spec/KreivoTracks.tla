---------------------------- MODULE KreivoTracks ----------------------------
(* The collective's tracks: one for each of its powers and one for root. A   *)
(* poll about a call to be made with some authority goes to the track of     *)
(* that authority, or cannot be opened.                                      *)
(* world: [tracks: sequence of [id, name], polls: sequence of [t, st]]       *)
EXTENDS KreivoOrigins, FiniteSets

TrackName == [id \in 0 .. 3 |-> <<"Root", "Referendum Canceller", "Referendum Killer", "Create Memberships">>[id + 1]]
NoTrack == -1
TrackOf(o) ==
    CASE o = Root -> 0 [] o = Canceller -> 1 [] o = Killer -> 2 [] o = MembershipsPower -> 3 [] OTHER -> NoTrack
Tracks == [i \in 1 .. 4 |-> [id |-> i - 1, name |-> TrackName[i - 1]]]
World0 == [tracks |-> Tracks, polls |-> <<>>]

Yes(w, x) == [ok |-> TRUE, w |-> w, x |-> x]
No(w) == [ok |-> FALSE, w |-> w, x |-> <<>>]
Ongoing(w, i) == i \in DOMAIN w.polls /\ w.polls[i].st = "open"
End(w, i, st) == Yes([w EXCEPT !.polls[i] = [t |-> 0, st |-> st]], <<>>)
TApply(w, k) ==
    CASE k.op = "for" -> IF TrackOf(k.o) = NoTrack THEN No(w) ELSE Yes(w, TrackOf(k.o))
      [] k.op = "info" -> IF k.t \in DOMAIN TrackName THEN Yes(w, TrackName[k.t]) ELSE No(w)
      [] k.op = "curve" -> IF k.t \in DOMAIN TrackName THEN Yes(w, <<>>) ELSE No(w)
      [] k.op = "open" ->
           IF k.by.o # "signed" \/ TrackOf(k.o) = NoTrack THEN No(w)
           ELSE Yes([w EXCEPT !.polls = Append(@, [t |-> TrackOf(k.o), st |-> "open"])], <<>>)
      [] k.op = "cancel" -> IF k.by = Canceller /\ Ongoing(w, k.i) THEN End(w, k.i, "cancelled") ELSE No(w)
      [] k.op = "kill" -> IF k.by = Killer /\ Ongoing(w, k.i) THEN End(w, k.i, "killed") ELSE No(w)

-----------------------------------------------------------------------------
Whole == 1000000000
\* thresholds at rising points of the decision period
Falling(y) == /\ \A i \in DOMAIN y : y[i] \in 0 .. Whole
              /\ \A i \in 1 .. Len(y) - 1 : y[i + 1] <= y[i]

C30(r) ==
    LET e == TApply(r.pre, r.call) IN
    \* listed in order, without duplicates, one for each authority that has one
    /\ \A i \in 1 .. Len(r.post.tracks) - 1 : r.post.tracks[i].id < r.post.tracks[i + 1].id
    /\ r.post.tracks = Tracks
    /\ r.ok = e.ok /\ r.post = e.w
    /\ (r.ok /\ r.call.op = "for") => r.t = e.x
    /\ (r.ok /\ r.call.op = "info") => r.name = e.x
    /\ (r.ok /\ r.call.op = "curve") => Len(r.app) = Len(r.call.x) /\ Len(r.sup) = Len(r.call.x) /\ Falling(r.app) /\ Falling(r.sup)
=============================================================================
