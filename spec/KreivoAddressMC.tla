-------------------------- MODULE KreivoAddressMC --------------------------
EXTENDS KreivoAddress, TLC, Json, IOUtils, CSV

CONSTANTS Numbers, Gifts
VARIABLES s, last, hist
vars == <<s, last, hist>>

Accounts == {User(1), Payer, Treasury} \cup {CommunityAccount(c) : c \in Numbers} \cup LookAlike(5)
Bytes20 == {[i \in 1 .. 20 |-> 1], [i \in 1 .. 20 |-> CommunityAccount(5)[i]]}
Addresses == [f : {"id"}, a : Accounts] \cup [f : {"index"}, c : Numbers] \cup [f : {"32"}, b : Accounts]
    \cup [f : {"20"}, b : Bytes20] \cup [f : {"raw"}, b : {<<>>, <<5, 0>>, <<5>>, User(1), CommunityAccount(5)}]
Calls == [op : {"resolve", "give"}, to : Addresses] \cup [op : {"write"}, a : Accounts]
Init == s = [rich |-> {}] /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Gifts
        /\ \E k \in Calls :
            LET r == DApply(s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> r.ok, pre |-> s, post |-> r.w, a |-> r.a, to |-> r.to]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C35(last')]_vars
\* different numbers are different accounts, and not anyone else's
Numbered == \A c, d \in Numbers : CommunityAccount(c) = CommunityAccount(d) => c = d
Inverse == \A c \in Numbers : CommunityOf(Resolve([f |-> "index", c |-> c])) = c

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "address"]])>>, IOEnv.OUT)
=============================================================================
