----------------------------- MODULE PaymentsMC -----------------------------
(* Exhaustive exploration of small worlds of payments. Accounts: 1 payer,    *)
(* 2 payee, 3 fee collector, 4 resolver, 5 stranger. Every edge is a call    *)
(* made in a reachable world; the properties are checked on each edge, and   *)
(* the path to each edge is written out, to be made on the real pallet.      *)
EXTENDS Payments, TLC, Json, IOUtils, CSV

CONSTANTS Scenario, MaxBlk

VARIABLES s, last, hist
vars == <<s, last, hist>>

F(x, v, m) == [x |-> x, v |-> v, m |-> m]
std_sf == <<F(3, 2, TRUE), F(5, 1, FALSE)>>
std_bf == <<F(3, 3, TRUE), F(5, 2, FALSE)>>

Cfg ==
    CASE Scenario = "min" -> [n |-> 5, min |-> <<20>>, free |-> <<<<150, 60, 30, 0, 20>>>>, inc |-> 10, buf |-> 1, res |-> 4]
      [] Scenario = "poor" -> [n |-> 5, min |-> <<1>>, free |-> <<<<113, 4, 0, 1, 0>>>>, inc |-> 10, buf |-> 1, res |-> 4]
      [] Scenario = "time" -> [n |-> 5, min |-> <<1>>, free |-> <<<<500, 100, 0, 10, 0>>>>, inc |-> 10, buf |-> 3, res |-> 4]
      [] Scenario = "two" -> [n |-> 5, min |-> <<1, 5>>, free |-> <<<<500, 300, 10, 10, 10>>, <<400, 200, 10, 10, 10>>>>, inc |-> 7, buf |-> 1, res |-> 4]
      [] OTHER -> [n |-> 5, min |-> <<1>>, free |-> <<<<500, 300, 10, 10, 200>>>>, inc |-> 10, buf |-> 1, res |-> 4]

P(who, b, a, amt, nid) == [op |-> "pay", who |-> who, b |-> b, a |-> a, amt |-> amt, sf |-> std_sf, bf |-> std_bf, nid |-> nid, rem |-> <<>>]
Q(who, from, a, amt, nid) == [op |-> "req", who |-> who, s |-> from, a |-> a, amt |-> amt, sf |-> std_sf, bf |-> std_bf, nid |-> nid]
FeeTables == {<<>>, std_sf, <<F(3, 2, TRUE), F(3, 4, FALSE)>>, <<F(3, 4, FALSE), F(3, 2, TRUE)>>, <<F(1, 3, TRUE), F(2, 5, TRUE)>>,
              <<F(4, 6, FALSE), F(4, 1, FALSE)>>, <<F(2, 7, FALSE), F(3, 0, TRUE)>>}

Creations ==
    CASE Scenario = "core" -> {P(1, 2, 1, 105, 1), Q(2, 1, 1, 105, 1), P(2, 1, 1, 33, 2), P(1, 2, 1, 40, 0), [P(1, 2, 1, 50, 2) EXCEPT !.who = 0]}
      [] Scenario = "two" -> {P(1, 2, 1, 105, 1), P(1, 2, 2, 40, 2), Q(2, 1, 2, 60, 2)}
      [] Scenario = "ids" -> {P(1, 2, 1, 100, 1), P(2, 1, 1, 50, 1), P(1, 5, 1, 30, 1), P(1, 1, 1, 20, 1), Q(2, 1, 1, 105, 1), Q(2, 5, 1, 60, 1), Q(5, 1, 1, 70, 1),
                              P(5, 2, 1, 20, 2), Q(1, 1, 1, 9, 2), P(1, 2, 1, 11, 2), [Q(1, 2, 1, 50, 2) EXCEPT !.who = 99]}
      [] Scenario = "fees" -> {[P(1, 2, 1, amt, 1) EXCEPT !.sf = x, !.bf = y] : amt \in {100, 37}, x \in FeeTables, y \in FeeTables}
                              \cup {[Q(2, 1, 1, 100, 1) EXCEPT !.sf = x, !.bf = y] : x \in FeeTables, y \in FeeTables}
      [] Scenario = "min" -> {P(1, 2, 1, amt, 1) : amt \in {5, 50, 100, 110}} \cup {Q(2, 1, 1, amt, 1) : amt \in {5, 100, 130, 147, 148}} \cup {P(2, 1, 1, 20, 2)}
      [] Scenario = "poor" -> {P(1, 2, 1, amt, 1) : amt \in {0, 1, 99, 100, 101}} \cup {Q(2, 1, 1, amt, 1) : amt \in {0, 1, 109, 110, 112}}
      [] Scenario = "time" -> {P(1, 2, 1, 100, 1), P(1, 2, 1, 50, 2)}

Ids == IF Scenario \in {"fees", "poor"} THEN {1} ELSE {1, 2}
Whos == IF Scenario \in {"fees", "min", "poor", "time"} THEN {1, 2} ELSE IF Scenario = "two" THEN {1, 2, 5} ELSE {0, 1, 2, 5, 99}
Shares == IF Scenario = "fees" THEN {0, 33, 100} ELSE {25}
Moves_ == CASE Scenario = "min" -> {[op |-> "move", who |-> 2, to |-> 3, a |-> 1, amt |-> 60], [op |-> "move", who |-> 1, to |-> 3, a |-> 1, amt |-> 25]}
            [] Scenario = "poor" -> {[op |-> "move", who |-> 2, to |-> 3, a |-> 1, amt |-> 4]}
            [] OTHER -> {}
Calls(w) ==
    (IF Scenario = "fees" /\ w.pays # {} THEN {} ELSE Creations) \cup Moves_
    \cup [op : ById \ {"rsv"}, who : Whos, id : Ids]
    \cup [op : {"rsv"}, who : (Whos \ {2}) \cup {4}, id : Ids, pct : Shares, fav : {"s", "b"}]
    \cup (IF w.blk < MaxBlk THEN {[op |-> "next"]} ELSE {})

Init ==
    /\ s = [blk |-> 1, free |-> Cfg.free, held |-> [a \in DOMAIN Cfg.min |-> [x \in 1 .. Cfg.n |-> 0]],
            dust |-> [a \in DOMAIN Cfg.min |-> 0], pays |-> {}, par |-> {}, tasks |-> <<>>]
    /\ last = <<>>
    /\ hist = <<>>

Next == \E k \in Calls(s) :
    LET r == Apply(Cfg, s, k) IN
    /\ s' = r.w
    /\ hist' = Append(hist, k)
    /\ last' = [cfg |-> Cfg, pre |-> s, call |-> k, ok |-> r.ok, post |-> r.w, ev |-> r.ev]

Spec == Init /\ [][Next]_vars
View == s

EdgesHold == [][\A p \in PropsNames : Prop(p, last')]_vars
Required_ == \A a \in DOMAIN Cfg.min, x \in 1 .. Cfg.n : s.held[a][x] = Required(s, a, x)
Named_ == Named(s)
Conserved == \A a \in DOMAIN Cfg.min : AllOf(s, a) = Total(Cfg.free[a])
Never == \A a \in DOMAIN Cfg.min, x \in 1 .. Cfg.n : s.free[a][x] >= 0 /\ (s.free[a][x] > 0 => s.free[a][x] >= Cfg.min[a])

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
Here == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> Cfg])>>, IOEnv.OUT)
ASSUME Here
=============================================================================
