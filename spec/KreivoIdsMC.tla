---------------------------- MODULE KreivoIdsMC ----------------------------
EXTENDS KreivoIds, KreivoAccounts, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Blocks, Exts
B == {<<2, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<255, 255, 255, 255>>}
X == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<255, 255, 0, 0>>, <<0, 0, 1, 0>>}

VARIABLES s, last, hist
vars == <<s, last, hist>>

Payees == {User(1), User(2), CommunityAccount(5), Treasury, [User(1) EXCEPT ![2] = 2], [User(1) EXCEPT ![3] = 9]}
Calls == [op : {"pay"}, blk : Blocks, ext : Exts \cup {<<>>}, b : {User(1)}]
    \cup [op : {"pay", "req"}, blk : {<<1, 0, 0, 0>>}, ext : {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>}, b : Payees]
Init == s = [issued |-> <<>>] /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls :
            LET r == IApply(s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> r.ok, pre |-> s, post |-> r.w, id |-> r.id]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C26(last')]_vars
\* no two payments made at different places share an id
Unique == \A i, j \in DOMAIN s.issued : (i # j /\ Elsewhere(s.issued[i], s.issued[j])) => s.issued[i].id # s.issued[j].id
NoTwins == \A i, j \in DOMAIN s.issued : (i < j /\ s.issued[i].op = "pay") => s.issued[i].id # s.issued[j].id

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "ids"]])>>, IOEnv.OUT)
=============================================================================
