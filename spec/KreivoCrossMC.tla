--------------------------- MODULE KreivoCrossMC ---------------------------
EXTENDS KreivoCross, TLC, Json, IOUtils, CSV

CONSTANTS Topic,      \* "names", "assets" or "calls"
          Deep,       \* length of the places tried
          Steps
VARIABLES s, last, hist
vars == <<s, last, hist>>

Seqs(S, n) == UNION {[1 .. m -> S] : m \in 0 .. n}
Nets == {"none", "kusama", "polkadot", "westend", "genesis"}
Numbers == {<<0, 0>>, <<0, 5>>, <<0, 65535>>, <<1, 0>>, <<1, 5>>, <<0, 256>>, <<65535, 65535>>}
Bodies == {"unit", "moniker", "executive", "technical", "legislative", "judicial", "defense", "administration", "treasury"}
Parts == {"voice", "members", "fraction", "atleast", "morethan"}
Keys == {User(1), CommunityAccount(5), Treasury}
Junctions ==
    {Para(n) : n \in {0, 1, 5, 1000, 1001, 2000, 65536, 16777216}} \cup {Acc(n, a) : n \in Nets, a \in Keys}
    \cup {[t |-> "plu", body |-> "index", n |-> n, part |-> q] : n \in Numbers, q \in Parts} \cup {Body(b, q) : b \in Bodies, q \in {"voice", "members"}}
    \cup {[t |-> "acc20", net |-> "none", id |-> SubSeq(CommunityAccount(5), 1, 20)], [t |-> "acc64", net |-> "kusama", n |-> 5],
          Pallet(5), Pallet(71), Index(5), [t |-> "key", id |-> CommunityAccount(5)], [t |-> "child"], Consensus("kusama"), Consensus("polkadot")}
Few == {Para(1000), Para(5), Acc("none", User(1)), Acc("kusama", CommunityAccount(5)), Plurality(5), Body("executive", "voice"), Pallet(71), Index(5), Consensus("kusama")}
Places == [p : 0 .. 3, j : Seqs(Junctions, 1)] \cup [p : 0 .. 2, j : Seqs(Few, Deep)]
Bys == {Root, None, Signed(User(1)), Signed(Treasury), Relay, Sibling(1000)} \cup Powers \cup {Community(c) : c \in {0, 1, 5, 256, 65535}}
    \cup {Signed(CommunityAccount(c)) : c \in {0, 1, 5, 256, 65535}} \cup {Signed(a) : a \in LookAlike(5) \cup LookAlike(0)}
    \cup {Signed(SubAccount(CommunityTag, <<5>>)), Signed(SubAccount(CommunityTag, <<5, 0, 0, 1>>)), Signed(AccountOf(AssetHub)), Signed(AccountOf(RelayPlace))}
Dests == {RelayPlace, AssetHub, At(1, <<Para(2000)>>), At(0, <<>>), At(2, <<>>), Polkadot, At(1, <<Para(1000), Pallet(50)>>), At(1, <<Acc("none", User(1))>>)}

Tags == {Consensus("polkadot"), Consensus("kusama"), Para(1000), Para(1001), Pallet(50), Index(5), Consensus("ethereum")}
AssetPlaces == [p : 0 .. 3, j : Seqs(Tags, Deep)]
Senders == {RelayPlace, AssetHub, At(1, <<Para(1001)>>), At(1, <<Para(1000), Pallet(50)>>), At(0, <<>>), At(0, <<Para(1000)>>), At(2, <<Para(1000)>>),
            Polkadot, At(1, <<Consensus("polkadot")>>), At(1, <<Para(2000)>>), At(2, <<Consensus("kusama")>>), At(1, <<Acc("none", User(1))>>)}

HubAsset == At(1, <<Para(1000), Pallet(50), Index(5)>>)
Assets == << HubAsset, At(1, <<Para(1000), Pallet(50), Index(6)>>), At(1, <<Para(2000), Pallet(50), Index(5)>>), Polkadot,
             At(2, <<Consensus("polkadot"), Para(1000), Pallet(50), Index(5)>>), At(2, <<Consensus("kusama")>>), At(2, <<Consensus("ethereum")>>),
             AssetHub, At(1, <<Para(1000), Pallet(50)>>) >>
Rich == << AccountOf(RelayPlace), AccountOf(AssetHub), User(1), CommunityAccount(5) >>
Cfg == [fam |-> "cross", assets |-> Assets, rich |-> Rich]

Froms == {RelayPlace, AssetHub, At(1, <<Para(2000)>>)}
Tos == {At(0, <<Acc("none", User(2))>>), At(0, <<Acc("kusama", User(1))>>), At(0, <<Acc("polkadot", User(2))>>), At(0, <<Plurality(5)>>), At(1, <<Para(2000)>>),
        At(1, <<Acc("none", User(2))>>), At(0, <<Pallet(71)>>)}
Below == {<<>>, <<Pallet(50)>>, <<Acc("none", User(1))>>}
Call(S) == UNION {[op : {"claim"}, from : Froms, at : Below, how : {"reserve", "teleport"}, i : S, to : Tos]}
Claims == Call(0 .. Len(Assets))
Inner == {<<>>, <<Body("executive", "voice")>>, <<Body("executive", "members")>>, <<Body("defense", "voice")>>, <<Body("defense", "members")>>, <<Plurality(5)>>,
          <<Acc("none", User(1))>>, <<Acc("polkadot", User(1))>>, <<Para(1000)>>, <<Pallet(71)>>}
Kinds == {"native", "sovereign", "superuser", "xcm"}
Calls ==
    CASE Topic = "names" ->
            IF hist = <<>> THEN [op : {"acct"}, l : Places] \cup [op : {"face", "face!"}, by : Bys] \cup [op : {"send"}, by : Bys, to : Dests] ELSE {}
      [] Topic = "assets" ->
            (IF hist = <<>> THEN [op : {"vouch"}, how : {"reserve"}, l : AssetPlaces, from : Senders] \cup {[op |-> "vouch", how |-> h, l |-> l, from |-> l] : h \in {"reserve", "teleport"}, l \in AssetPlaces}
             ELSE {}) \cup Claims
      [] Topic = "calls" ->
            (IF hist = <<>> THEN [op : {"auth"}, l : Places, as : Kinds] ELSE {})
            \cup [op : {"call"}, from : Froms, at : Inner, then : Inner, paid : BOOLEAN, as : Kinds, what : {"remark", "bond"}]

Init == s = [held |-> {}, bond |-> 0] /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Steps
        /\ \E k \in Calls :
            LET r == XApply(Cfg, s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> r.ok, pre |-> s, post |-> r.w, x |-> r.x]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][Backed(Cfg, last') /\ Outsider(last') /\ OwnCommunity(last')]_vars
\* different communities are different places and different accounts
Distinct == \A c, d \in {0, 1, 5, 255, 256, 65535} : c # d =>
                AccountOf(At(0, <<Plurality(c)>>)) # AccountOf(At(0, <<Plurality(d)>>)) /\ Face(Community(c)) # Face(Community(d))
\* and a community's account has the face it is found by
RoundTrip == \A c \in {0, 1, 5, 255, 256, 65535} : AccountOf(Face(Signed(CommunityAccount(c)))) = CommunityAccount(c)

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> Cfg])>>, IOEnv.OUT)
=============================================================================
