--------------------------- MODULE KreivoPowersMC ---------------------------
EXTENDS KreivoPowers, TLC, Json, IOUtils, CSV

CONSTANTS Numbers, Depth
VARIABLES s, last, hist
vars == <<s, last, hist>>

User(i) == [n \in 1..32 |-> i]
Rich == User(7)
Poor == User(3)
Purses == <<Rich>>
Treas == User(99)
Prices == [ed |-> N(3), unit |-> N(10)]
Root == [o |-> "root"]
Origins == {Root, [o |-> "none"], [o |-> "signed", a |-> Rich], [o |-> "signed", a |-> Poor], [o |-> "memberships"], [o |-> "canceller"],
            [o |-> "killer"], [o |-> "relay"], [o |-> "sibling", p |-> 2000], Staking,
            [o |-> "place", l |-> [p |-> 1, j |-> <<>>]],
            [o |-> "place", l |-> [p |-> 1, j |-> <<[t |-> "plu", body |-> "treasury", part |-> "voice"]>>]],
            [o |-> "place", l |-> [p |-> 1, j |-> <<[t |-> "plu", body |-> "defense", part |-> "members"]>>]],
            [o |-> "place", l |-> [p |-> 1, j |-> <<[t |-> "para", n |-> 2000], [t |-> "plu", body |-> "defense", part |-> "voice"]>>]],
            [o |-> "place", l |-> [p |-> 0, j |-> <<[t |-> "plu", body |-> "defense", part |-> "voice"]>>]]}
    \cup [o : {"community"}, c : 0..3]
Calls == [op : {"upload", "deploy", "asset", "own asset", "mint", "raise", "lower", "seat", "found", "join", "bond"}, by : Origins, n : Numbers]
Init == /\ s = [codes |-> {}, contracts |-> [i \in 1..9 |-> 0], assets |-> {}, bond |-> 0, users |-> {}, comms |-> {}, seats |-> <<>>, items |-> {}, spent |-> <<W0>>, got |-> W0]
        /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls : LET e == PApply(s, Purses, k, Prices, Treas) IN
            /\ s' = e.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> e.ok, got |-> "", pr |-> Prices, purse |-> Purses, treasury |-> Treas, pre |-> s, post |-> e.w]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C38(last')]_vars
\* accounts without privilege only found, join and pay for it
Ordinary == [][last'.call.by.o \in {"signed", "none", "relay", "sibling", "canceller", "killer"} =>
    [s EXCEPT !.users = {}, !.comms = {}, !.seats = <<>>, !.spent = <<>>, !.got = W0]
        = [s' EXCEPT !.users = {}, !.comms = {}, !.seats = <<>>, !.spent = <<>>, !.got = W0]]_vars
\* everything spent reached the treasury, and there is a price on every founding and joining by accounts
Balanced == s.got = WTotal(s.spent)
\* contracts run uploaded code, and only communities hold seats
Sound == /\ \A i \in 1..9 : s.contracts[i] > 0 => \E c \in s.codes : c.n = i /\ c.by = Treas
         /\ DOMAIN s.seats \subseteq s.comms
\* the classes of calls do not overlap
Classes == <<Nobody, RootOnly, Collators, Minting, Founding, Deploying, Joining, Cancelling, Killing, Inherent, Paying, Personal>>
ASSUME \A i, j \in DOMAIN Classes : i # j => Classes[i] \cap Classes[j] = {}

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "powers", purse |-> Purses]])>>, IOEnv.OUT)
=============================================================================
