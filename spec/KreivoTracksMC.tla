--------------------------- MODULE KreivoTracksMC ---------------------------
EXTENDS KreivoTracks, TLC, Json, IOUtils, CSV

CONSTANTS Polls, Points
VARIABLES s, last, hist
vars == <<s, last, hist>>

Authorities == {Root, None, Signed(User(1)), Signed(User(2)), Signed(CommunityAccount(5)), Signed(Treasury), Community(0),
    Community(1), Community(3), Community(65535), Relay, Sibling(1000)} \cup Powers
Calls(w) ==
    (IF w.polls = <<>> THEN
        [op : {"for"}, o : Authorities] \cup [op : {"info"}, t : {0, 1, 2, 3, 4, 5, 65535}]
        \cup [op : {"curve"}, t : 0 .. 4, x : {[i \in 1 .. Points + 1 |-> (i - 1) * (Whole \div Points)]}]
     ELSE {})
    \cup (IF Len(w.polls) < Polls THEN [op : {"open"}, o : Authorities, by : {Signed(User(1)), Root, None, Canceller, Community(1)}] ELSE {})
    \cup [op : {"cancel", "kill"}, i : 1 .. Polls, by : Authorities]
Init == s = World0 /\ last = <<>> /\ hist = <<>>
Next == \E k \in Calls(s) :
            LET r == TApply(s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> r.ok, pre |-> s, post |-> r.w, t |-> r.x, name |-> r.x,
                        app |-> IF k.op = "curve" THEN [i \in DOMAIN k.x |-> Whole - k.x[i]] ELSE <<>>,
                        sup |-> IF k.op = "curve" THEN [i \in DOMAIN k.x |-> Whole - k.x[i]] ELSE <<>>]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C30(last')]_vars
OneToOne == /\ \A o, p \in Authorities : (o # p /\ TrackOf(o) # NoTrack) => TrackOf(o) # TrackOf(p)
            /\ \A i \in DOMAIN Tracks : \E o \in Authorities : TrackOf(o) = Tracks[i].id
            /\ \A o \in Authorities : TrackOf(o) # NoTrack => \E i \in DOMAIN Tracks : Tracks[i].id = TrackOf(o)
OnTracks == \A i \in DOMAIN s.polls : s.polls[i].t \in DOMAIN TrackName

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "tracks"]])>>, IOEnv.OUT)
=============================================================================
