---------------------------- MODULE KreivoGovMC ----------------------------
EXTENDS KreivoGov, TLC, Json, IOUtils, CSV

CONSTANTS Topic, Steps
VARIABLES s, last, hist
vars == <<s, last, hist>>

\* the first three are the users; 3 administers community 6, 4 community 5
Voices == << Signed(User(1)), Signed(User(2)), Signed(User(3)), Signed(User(4)), Root, None,
             Community(5), Community(6), Community(700), Signed(CommunityAccount(5)), Signed(CommunityAccount(6)), Signed(CommunityAccount(700)),
             Signed(Treasury), Signed(SubAccount(PaymentsTag, Le16(5))), Signed(SubAccount(PassTag, Le16(5))), Signed([CommunityAccount(5) EXCEPT ![32] = 1]),
             Signed(SubAccount(<<107, 118, 47, 99, 109, 116, 121, 83>>, Le16(6))), MembershipsPower, Relay, Sibling(5) >>
PollWho == << Signed(User(1)), Signed(User(2)), Signed(User(3)), Signed(User(4)), Root, None,
              Community(5), Community(6), Community(7), Signed(CommunityAccount(5)), MembershipsPower >>
Who == IF Topic = "voice" THEN Voices ELSE PollWho
N == DOMAIN Who
Cfg == [fam |-> "gov", who |-> Who, comm |-> <<5, 6>>, spare |-> IF Topic = "voice" THEN <<0, 700>> ELSE <<7>>, adm |-> <<4, 3>>, pool |-> 3,
        mem |-> IF Topic = "voice" THEN <<[c |-> 6, a |-> 2]>> ELSE <<[c |-> 5, a |-> 1], [c |-> 6, a |-> 2], [c |-> 5, a |-> 3], [c |-> 6, a |-> 3]>>]

Given(c) == Cardinality({i \in DOMAIN Cfg.mem : Cfg.mem[i].c = c})
Start == [comm |-> {5, 6}, adm |-> {[o |-> 4, c |-> 5], [o |-> 3, c |-> 6]}, meth |-> {},
          mem |-> {[c |-> x.c, a |-> x.a, n |-> 1] : x \in {Cfg.mem[i] : i \in DOMAIN Cfg.mem}},
          pool |-> {[c |-> c, n |-> 3 - Given(c)] : c \in ({5, 6} \cup {Cfg.spare[i] : i \in DOMAIN Cfg.spare}) \ {0}},
          tracks |-> {[t |-> 5, v |-> 0], [t |-> 6, v |-> 0]}, gov |-> {[o |-> 7, t |-> 5], [o |-> 8, t |-> 6]}, polls |-> <<>>]
Calls ==
    IF Topic = "voice" THEN
        [op : {"say", "pay"}, by : N] \cup [op : {"meth"}, by : N, c : {0, 5, 6}, m : {"native", "rank"}] \cup [op : {"add"}, by : N, a : {1, 2}]
        \cup [op : {"drop"}, by : N, a : {1, 2}, c : {5, 6}] \cup [op : {"admin"}, by : N, to : {1, 3, 5, 7, 10, 11, 14, 19}]
    ELSE
        [op : {"open"}, by : N, for : {1, 5, 7, 8, 9, 10}] \cup [op : {"cancel", "kill"}, by : {1, 5, 7, 11}, i : {1, 2}]
        \cup [op : {"ins"}, by : {1, 5, 7}, t : {5, 7}, for : {7, 9, 10}] \cup [op : {"upd"}, by : N, t : {5, 6, 7}, v : {1}]
        \cup [op : {"del"}, by : {1, 5, 7, 8}, t : {5, 6, 7}] \cup [op : {"add", "drop"}, by : {7, 8}, a : {1, 4}, c : {5, 6}]
Init == s = Start /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Steps
        /\ \E k \in Calls :
            LET r == GApply(Cfg, s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> r.ok, pre |-> s, post |-> r.w, as |-> r.as]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C28(Cfg, last') /\ C36(Cfg, last')]_vars
\* memberships are only moved
Kept == \A c \in {5, 6} : LET n == {x \in s.mem : x.c = c} IN
            Spare(s, c) + (IF n = {} THEN 0 ELSE LET f[S \in SUBSET n] == IF S = {} THEN 0 ELSE LET x == Only(S) IN x.n + f[S \ {x}] IN f[n]) = 3
OneTrack == \A x, y \in s.gov : x.o = y.o => x = y
TracksExist == \A x \in s.gov : \E t \in s.tracks : t.t = x.t
OneAdmin == \A x, y \in s.adm : x.o = y.o => x = y

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> Cfg])>>, IOEnv.OUT)
=============================================================================
