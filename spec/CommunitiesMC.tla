---------------------------- MODULE CommunitiesMC ----------------------------
(* Exhaustive exploration of small worlds of communities. The properties are  *)
(* checked on every edge, and the path to each edge is written out, to be     *)
(* made on the real pallet.                                                   *)
(* "reg":  who may register and administer communities                        *)
(* "as":   acting as a community's account, also through another community    *)
(* "mem":  two communities, memberships handed out, withdrawn, ranked         *)
(* "top":  the largest rank                                                   *)
(* "std", "rank", "native", "asset": voting by each method                    *)
(* "turn": the method changes while votes are recorded                        *)
(* "hand": memberships change hands while votes are recorded                  *)
(* "big":  amounts around and beyond 32 bits                                  *)
EXTENDS Communities, TLC, Json, IOUtils, CSV, SequencesExt

CONSTANTS Scenario, Size

VARIABLES s, last, hist
vars == <<s, last, hist>>

Me(k) == [k |-> k, a |-> 0, min |-> W0]
MeAsset(a, min) == [k |-> "asset", a |-> a, min |-> N(min)]
I(m, c, o, r) == [m |-> m, c |-> c, o |-> o, r |-> r]
NoPoll == [st |-> "none", c |-> 0, ayes |-> W0, nays |-> W0, bare |-> W0]
OpenPoll(c) == [NoPoll EXCEPT !.st = "open", !.c = c]
G == 536870912      \* 2^29

Tot(c, items) == [n |-> Cardinality({i \in items : i.c = c}), r |-> MapThenSumSet(LAMBDA i : i.r, {i \in items : i.c = c})]
World(comm, adm, meth, items, polls, bal, abal) ==
    [comm |-> comm, adm |-> adm, meth |-> meth, items |-> items, tot |-> [c \in DOMAIN comm |-> Tot(c, items)],
     polls |-> polls, votes |-> {}, locks |-> {}, bal |-> bal, cbal |-> [c \in DOMAIN comm |-> N(10)], rbal |-> N(10),
     frz |-> [x \in DOMAIN bal |-> W0], abal |-> abal, afrz |-> [a \in DOMAIN abal |-> [x \in DOMAIN bal |-> W0]]]
Two == <<"active", "active">>
TwoAdmins == {[o |-> 1, c |-> 1], [o |-> 2, c |-> 2]}
Std2 == <<Me("std"), Me("std")>>
Tens(n) == [x \in 1 .. n |-> N(10)]

First ==
    CASE Scenario = "reg" -> World(<<"none", "none">>, {}, Std2, {I(1, 0, 101, 0), I(2, 0, 102, 0)}, <<>>, <<N(100), N(100), N(5)>>, <<>>)
      [] Scenario = "as" -> World(Two, {[o |-> 1, c |-> 1], [o |-> 101, c |-> 2]}, Std2, {I(1, 0, 101, 0), I(2, 0, 102, 0)}, <<>>, <<N(30), N(30)>>, <<>>)
      [] Scenario = "mem" -> World(Two, TwoAdmins, Std2, {I(1, 0, 101, 0), I(2, 0, 101, 0), I(3, 0, 102, 0)}, <<>>, Tens(4), <<>>)
      [] Scenario = "top" -> World(Two, TwoAdmins, Std2, {I(1, 1, 3, 254), I(2, 1, 3, 0), I(3, 2, 4, 255)}, <<>>, Tens(4), <<>>)
      [] Scenario = "std" -> World(Two, TwoAdmins, Std2, {I(1, 1, 3, 2), I(2, 1, 3, 0), I(3, 1, 4, 5), I(4, 2, 4, 0), I(5, 0, 101, 0)}, <<OpenPoll(1), NoPoll, NoPoll>>, Tens(4), <<>>)
      [] Scenario = "rank" -> World(Two, TwoAdmins, <<Me("rank"), Me("rank")>>, {I(1, 1, 3, 2), I(2, 1, 4, 0), I(3, 2, 4, 1)}, <<OpenPoll(1), OpenPoll(2)>>, Tens(4), <<>>)
      [] Scenario = "native" -> World(Two, TwoAdmins, <<Me("native"), Me("native")>>, {I(1, 1, 3, 2), I(2, 2, 3, 1), I(3, 1, 4, 1)}, <<OpenPoll(1), OpenPoll(2)>>, Tens(4), <<>>)
      [] Scenario = "asset" -> World(Two, TwoAdmins, <<MeAsset(1, 3), MeAsset(2, 1)>>, {I(1, 1, 3, 2), I(2, 2, 3, 1), I(3, 1, 4, 0)}, <<OpenPoll(1), OpenPoll(2), OpenPoll(1)>>, Tens(4), <<Tens(4), Tens(4)>>)
      [] Scenario = "turn" -> World(Two, TwoAdmins, <<Me("std"), Me("std")>>, {I(1, 1, 3, 3), I(2, 1, 4, 1)}, <<OpenPoll(1)>>, Tens(4), <<Tens(4)>>)
      [] Scenario = "hand" -> World(Two, TwoAdmins, <<Me("native"), Me("native")>>, {I(1, 1, 3, 2), I(2, 1, 3, 1)}, <<OpenPoll(1), OpenPoll(1)>>, Tens(4), <<>>)
      [] Scenario = "big" -> World(Two, TwoAdmins, <<Me("native"), Me("native")>>, {I(1, 1, 3, 1), I(2, 1, 4, 1), I(3, 1, 2, 0)}, <<OpenPoll(1)>>, [x \in 1 .. 4 |-> <<8, 5>>], <<>>)
Cfg == [price |-> N(20), init |-> First]

R(op) == [op |-> op, who |-> 0]
Inside == {R("remark"), R("store"), [op |-> "give", who |-> 0, x |-> 1, amt |-> N(4)], [op |-> "give", who |-> 0, x |-> 1, amt |-> N(40)]}
AsIf(who, in) == [op |-> "as", who |-> who, in |-> in]
V(who, m, p, say, k, a, amt) == [op |-> "vote", who |-> who, m |-> m, p |-> p, say |-> say, k |-> k, a |-> a, amt |-> amt]
Votes(whos, ms, ps, says, kinds) == {V(who, m, p, say, x[1], x[2], x[3]) : who \in whos, m \in ms, p \in ps, say \in says, x \in kinds}
Unvotes(whos, ms, ps) == [op : {"unvote"}, who : whos, m : ms, p : ps]
Plainly == {<<"std", 0, W0>>}
NativeOf(S) == {<<"native", 0, v>> : v \in S}
AssetOf(a, S) == {<<"asset", a, N(v)>> : v \in S}
Close(ps) == [op : {"close"}, who : {0}, p : ps, yes : {TRUE}]
Ranking(whos, ms) == [op : {"pro", "dem"}, who : whos, m : ms]
Methods(who, c, S) == {[op |-> "meth", who |-> who, c |-> c, me |-> me] : me \in S}

Calls(w) ==
    CASE Scenario = "reg" ->
            [op : {"create"}, who : {1, 3, 99}, o : {1, 2, 201}, c : {1, 2}] \cup [op : {"create"}, who : {0, 201}, o : {1}, c : {1}]
            \cup [op : {"setadm"}, who : {1, 2, 99, 201}, o : IF Size > 1 THEN {1, 2, 3, 201} ELSE {1, 2, 201}]
            \cup UNION {Methods(who, c, {Me("rank")}) : who \in {1, 2, 99, 201}, c \in {1, 2}}
            \cup [op : {"add"}, who : {1, 3, 201}, x : {3}]
            \cup [op : {"block", "free"}, who : {0}, c : {1}]
      [] Scenario = "as" ->
            {AsIf(who, in) : who \in {0, 1, 2, 99, 101, 201, 202}, in \in Inside}
            \cup {AsIf(who, AsIf(0, in)) : who \in {1, 2, 201}, in \in Inside}
            \cup {AsIf(who, [op |-> "setadm", who |-> 0, o |-> o]) : who \in {1, 101, 202}, o \in {1, 2, 101, 202}}
            \cup {AsIf(who, [op |-> "add", who |-> 0, x |-> 2]) : who \in {1, 202}}
            \cup {AsIf(1, AsIf(0, [op |-> "create", who |-> 0, o |-> 2, c |-> 2]))}
            \cup [op : {"block", "free"}, who : {0}, c : {1, 2}]
            \cup (IF w.bal[1] = N(30) THEN [op : {"give"}, who : {1}, x : {101, 102}, amt : {N(7)}] ELSE {})
      [] Scenario = "mem" ->
            [op : {"add"}, who : {0, 1, 2, 3, 99, 202}, x : {1, 3, 4}]
            \cup [op : {"rem"}, who : {1, 2, 3, 201}, x : {1, 3, 4}, m : 1 .. 3]
            \cup {k \in Ranking({1, 2, 3, 202}, 1 .. 3) : k.op = "dem" \/ \A i \in w.items : i.m = k.m => i.r < Size}
      [] Scenario = "top" -> {k \in Ranking({1, 2, 3, 201}, 1 .. 3) : \A i \in w.items : i.m = k.m => (k.op = "pro" /\ (i.r < Size \/ i.r > 250)) \/ (k.op = "dem" /\ (i.r < 10 \/ i.r > 255 - Size))} \cup [op : {"rem"}, who : {1}, x : {3}, m : {1}] \cup [op : {"add"}, who : {1}, x : {4}]
      [] Scenario = "std" ->
            Votes({3, 4}, {1, 2, 3}, {1, 2}, {TRUE, FALSE}, Plainly) \cup Votes({0, 1, 99, 101, 201}, {1, 5}, {1}, {TRUE}, Plainly) \cup Votes({4}, {4}, {1, 2}, {TRUE}, Plainly)
            \cup Votes({3}, {1}, {1, 3}, {TRUE}, NativeOf({N(1), W0}) \cup AssetOf(1, {0}))
            \cup Unvotes({1, 3, 4}, {1, 3, 4}, {1, 2})
            \cup {[op |-> "open", who |-> 0, p |-> 2, c |-> 2] : x \in IF w.polls[2].st = "none" THEN {1} ELSE {}} \cup Close({1, 2})
      [] Scenario = "rank" ->
            Votes({3}, {1}, {1}, {TRUE, FALSE}, Plainly) \cup Votes({4}, {2}, {1, 2}, {TRUE, FALSE}, Plainly) \cup Votes({4}, {3}, {1, 2}, {TRUE, FALSE}, Plainly)
            \cup Votes({3}, {1}, {1}, {TRUE}, NativeOf({N(1)}))
            \cup Unvotes({3}, {1}, {1}) \cup Unvotes({4}, {2, 3}, {1, 2})
            \cup {k \in Ranking({1}, IF Size > 2 THEN {1, 2} ELSE {1}) : k.op = "dem" \/ \A i \in w.items : i.m = k.m => i.r < Size}
            \cup [op : {"rem"}, who : {1}, x : {3}, m : {1}]
            \cup Close({1})
      [] Scenario = "native" ->
            Votes({3}, {1}, {1}, {TRUE, FALSE}, NativeOf(IF Size > 1 THEN {W0, N(3), N(10), N(11)} ELSE {W0, N(3), N(10)})) \cup Votes({3}, {2}, {2}, {TRUE}, NativeOf({N(4), N(11)}) \cup Plainly)
            \cup Votes({4}, {3}, {1}, {FALSE}, NativeOf({N(7)}))
            \cup Unvotes({3, 4}, {1, 2, 3}, {1, 2})
            \cup Close({1, 2}) \cup [op : {"unlock"}, who : {0, 3, 4}, p : {1, 2}]
            \cup [op : {"give"}, who : {3}, x : {4}, amt : IF Size > 1 THEN {N(1), N(6)} ELSE {N(6)}]
      [] Scenario = "asset" ->
            Votes({3}, {1}, {1}, {TRUE, FALSE}, AssetOf(1, {0, 2, 3, 8, 11})) \cup Votes({3}, {1}, {3}, {TRUE}, AssetOf(1, {5}))
            \cup Votes({3}, {2}, {2}, {TRUE}, AssetOf(2, {4}) \cup AssetOf(1, {4})) \cup Votes({3}, {1}, {1}, {TRUE}, NativeOf({N(5)}) \cup AssetOf(2, {5}))
            \cup Votes({4}, {3}, {1}, {TRUE}, AssetOf(1, {5}))
            \cup Unvotes({3, 4}, {1, 2, 3}, {1, 2, 3})
            \cup Close({1, 3}) \cup [op : {"unlock"}, who : {3, 4}, p : {1, 3}]
            \cup [op : {"agive"}, who : {3}, x : {4}, a : {1}, amt : {N(6)}]
      [] Scenario = "turn" ->
            Votes({3}, {1}, {1}, {TRUE, FALSE}, NativeOf({N(3)}) \cup Plainly \cup AssetOf(1, {4})) \cup Votes({4}, {2}, {1}, {TRUE}, NativeOf({N(5)}) \cup Plainly \cup AssetOf(1, {2}))
            \cup Unvotes({3, 4}, {1, 2}, {1}) \cup Methods(1, 1, {Me("std"), Me("rank"), Me("native"), MeAsset(1, 2)})
            \cup Ranking({1}, IF Size > 1 THEN {1} ELSE {})
      [] Scenario = "hand" ->
            Votes({3, 4}, {1}, {1}, {TRUE}, NativeOf({N(3), N(8)})) \cup Votes({3, 4}, {2}, {1, 2}, {TRUE}, NativeOf({N(5)}))
            \cup Unvotes({3, 4}, {1, 2}, {1, 2}) \cup [op : {"hand"}, who : {3, 4}, c : {1}, m : {1, 2}, x : {3, 4}] \cup [op : {"hand"}, who : {1}, c : {1}, m : {1}, x : {1}]
            \cup Close({1}) \cup [op : {"unlock"}, who : {3, 4}, p : {1, 2}]
      [] Scenario = "big" ->
            Votes({3}, {1}, {1}, {TRUE, FALSE}, NativeOf({<<3, WBase - 1>>, <<4, 0>>, <<8, 0>>, <<2, 1>>})) \cup Votes({4}, {2}, {1}, {TRUE}, NativeOf({<<2, 7>>, N(1), <<3, WBase - 2>>}))
            \cup Votes({2}, {3}, {1}, {FALSE}, NativeOf({<<7, 0>>})) \cup Votes({3}, {1}, {1}, {TRUE}, Plainly)
            \cup Unvotes({2, 3, 4}, {1, 2, 3}, {1}) \cup (IF Size > 1 THEN Methods(1, 1, {Me("rank"), Me("native")}) ELSE {}) \cup Close({1}) \cup [op : {"unlock"}, who : {3}, p : {1}]

Ask(w) == [c \in Communities_(w) |-> [x \in Users(w) |-> LET mine == {i \in w.items : i.c = c /\ i.o = x}
             IN [is |-> mine # {}, may |-> mine # {}, ms |-> SetToSeq({[m |-> i.m, r |-> i.r] : i \in mine})]]]

Init == s = First /\ last = <<>> /\ hist = <<>>
Next == \E k \in Calls(s) :
    LET r == Apply(Cfg, s, k) IN
    /\ s' = r.w
    /\ hist' = Append(hist, k)
    /\ last' = [cfg |-> Cfg, pre |-> s, call |-> k, ok |-> r.ok, post |-> r.w, ev |-> r.ev, ctl |-> Ctl(r.w), ask |-> Ask(r.w)]
Spec == Init /\ [][Next]_vars
View == s

\* proportions are left to TallyMC
EdgesHold == [][\A p \in PropsNames \ {"C21"} : Prop(p, last')]_vars
\* what the properties promise of every reachable world
OneAdmin_ == OneAdmin(s)
Placed == OncePlaced(s) /\ {i.m : i \in s.items} = {i.m : i \in First.items}
Totals == \A c \in Communities_(s) : s.tot[c] = Tot(c, s.items)
Tallies == \A p \in DOMAIN s.polls : Open(s, p) => TallyIs(s, p)
Freezes == \A x \in Users(s), a \in Tokens(s) : Enough(s, x, a) /\ NoMore(s, x, a) /\ WLeq(Frozen(s, x, a), Owned(s, x, a))
Supply == WAdd(s.rbal, WAdd(WTotal(s.bal), WTotal(s.cbal))) = WAdd(First.rbal, WAdd(WTotal(First.bal), WTotal(First.cbal)))

Out(w) == [w EXCEPT !.adm = SetToSeq(@), !.items = SetToSeq(@), !.votes = <<>>, !.locks = <<>>]
Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
Here == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> [Cfg EXCEPT !.init = Out(@)]])>>, IOEnv.OUT)
ASSUME Here
=============================================================================
