------------------------------ MODULE ManagerMC ------------------------------
(* All registrations and mints in small worlds, where a collection, a track, a *)
(* seat, money or room for tracks may be missing or in the way.                *)
EXTENDS Manager, TLC, Json, IOUtils, CSV, SequencesExt

CONSTANTS Scenario, Size

VARIABLES s, last, hist
vars == <<s, last, hist>>

Std == [k |-> "std", a |-> 0, min |-> W0]
Was == [id |-> 3, name |-> <<119, 97, 115, 32, 104, 101, 114, 101>>, max |-> 7, dep |-> N(5), prep |-> 6, dec |-> 50, conf |-> 8, enact |-> 9,
        app |-> <<100 * Percent, 10 * Percent, 90 * Percent>>, sup |-> <<100 * Percent, 10 * Percent, 90 * Percent>>]
Five == <<"none", "none", "none", "none", "none">>
First ==
    [comm |-> Five, adm |-> {}, entries |-> <<0, 0>>, meth |-> [c \in 1 .. 5 |-> Std],
     bal |-> <<N(100), N(21), N(20), N(5)>>, rbal |-> N(10), cbal |-> [c \in 1 .. 5 |-> W0],
     coll |-> <<98, 0, IF Scenario = "reg" THEN 1 ELSE 0, 0, 0, 0>>,
     tracks |-> IF Scenario = "reg" THEN {Was} ELSE {}, governs |-> [c \in 1 .. 5 |-> -1],
     inducted |-> [c \in 1 .. 5 |-> IF Scenario = "reg" /\ c = 4 THEN 0 ELSE -1],
     items |-> IF Scenario = "mint" THEN {[c |-> 0, m |-> N(5), o |-> 98, price |-> <<>>], [c |-> 0, m |-> N(9), o |-> 2, price |-> <<>>]} ELSE {}]
Cfg == [price |-> N(20), tracks |-> IF Scenario = "room" THEN 2 ELSE 4, manager |-> TRUE,
        collections |-> IF Scenario = "reg" THEN <<2>> ELSE <<>>, inducted |-> IF Scenario = "reg" THEN <<4>> ELSE <<>>,
        tracked |-> IF Scenario = "reg" THEN <<<<3, 1>>>> ELSE <<>>,
        taken |-> IF Scenario = "mint" THEN <<[m |-> N(5), o |-> 98], [m |-> N(9), o |-> 2]>> ELSE <<>>]

Name == <<86, 105>>
Names == {Name, <<>>, <<195, 169>>, <<195>>, <<255, 65>>}
Methods == {<<>>, <<[k |-> "rank", a |-> 0, min |-> W0]>>, <<[k |-> "native", a |-> 0, min |-> W0]>>, <<[k |-> "asset", a |-> 7, min |-> N(3)]>>}
Reg(whos, cs, names, xs, mes, trs) == [op : {"reg"}, who : whos, c : cs, name : names, x : xs, me : mes, tr : trs]
Calls(w) ==
    CASE Scenario = "reg" ->
            Reg({0, 1, 2, 3, 4, 99, 201}, 1 .. 5, {Name}, {1, 2}, {<<>>, <<[k |-> "rank", a |-> 0, min |-> W0]>>}, {FALSE}) \cup Reg({1}, 1 .. 5, Names, {3}, Methods, BOOLEAN)
      [] Scenario = "room" -> Reg({1}, 1 .. 3, {Name}, 1 .. 3, {<<>>}, BOOLEAN) \cup Reg({99}, 1 .. 5, {Name}, 2 .. 4, {<<>>}, {FALSE})
      [] Scenario = "mint" ->
            [op : {"mkm"}, who : {0, 1, 98, 201}, n : {1}, m : {N(0)}, price : {N(5)}]
            \cup [op : {"mkm"}, who : {99}, n : {0, 1, 2, 3, 1025, 65535}, m : {N(0), N(2), N(3), N(7), <<3, WBase - 2>>, U32Max}, price : {W0, <<9, 5>>}]
Init == s = First /\ last = <<>> /\ hist = <<>>
Next == \E k \in Calls(s) :
    LET r == Apply(Cfg, s, k) IN
    /\ Len(hist) < Size
    /\ s' = r.w
    /\ hist' = Append(hist, k)
    /\ last' = [cfg |-> Cfg, pre |-> s, call |-> k, ok |-> r.ok, post |-> r.w, ev |-> r.ev]
Spec == Init /\ [][Next]_vars
View == s

EdgesHold == [][C23(last') /\ C24(last')]_vars
\* a community has everything or nothing
Whole == \A c \in Comms(s) :
    LET there == s.comm[c] # "none" IN
    /\ there => s.coll[c + 1] = 100 + c /\ s.governs[c] = c /\ s.inducted[c] = 0 /\ Cardinality({t \in s.tracks : t.id = c}) = 1
    /\ Cardinality({a \in s.adm : a.c = c}) = IF there THEN 1 ELSE 0
    /\ ~there => s.governs[c] = -1 /\ s.meth[c] = Std /\ s.coll[c + 1] # 100 + c
Counted == s.entries = <<Cardinality({c \in Comms(s) : s.comm[c] # "none"}), Cardinality(s.adm)>>
Once == \A i, j \in s.items : i.c = j.c /\ i.m = j.m => i = j
Kept == First.items \subseteq s.items

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
Start == [comm |-> First.comm, bal |-> First.bal, rbal |-> First.rbal, cbal |-> First.cbal]
Here == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> [price |-> Cfg.price, tracks |-> Cfg.tracks, manager |-> TRUE, collections |-> Cfg.collections,
            inducted |-> Cfg.inducted, tracked |-> Cfg.tracked, taken |-> Cfg.taken, init |-> Start]])>>, IOEnv.OUT)
ASSUME Here
=============================================================================
