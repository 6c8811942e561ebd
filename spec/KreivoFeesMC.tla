---------------------------- MODULE KreivoFeesMC ----------------------------
EXTENDS KreivoFees, TLC, Json, IOUtils, CSV

CONSTANTS Depth
VARIABLES cfg, s, last, hist
vars == <<cfg, s, last, hist>>

\* the model's own prices
Weights == [t : {N(0), N(500000000)}, p : {N(0), N(200)}]
Of(w) == WMax(<<0, w.t[2] \div 100000000>>, <<0, w.p[2] \div 10>>)
Prices(k) == [ed |-> N(10), cent |-> N(1000), base |-> N(10000), flat |-> N(10), length |-> N(k.n * 10), first |-> Of(k.w), weighed |-> Of(Taken(k))]
Plain == [op : {"tx"}, by : {1, 2}, n : {0, 3}, w : Weights, tip : {N(0), N(7)}, in : 0..2]
Calls == Plain
    \cup [op : {"tx"}, by : {1, 2}, n : {3}, w : Weights, took : {[t |-> N(100000000), p |-> N(100)], [t |-> N(900000000), p |-> N(900)]}, tip : {N(7)}, in : 0..2]
    \cup [op : {"tx"}, by : {1}, n : {3}, w : {[t |-> N(500000000), p |-> N(0)]}, free : {TRUE}, tip : {N(0), N(7)}, in : 0..2]
Purse(a, b, au) == [payers |-> <<a, b, N(0)>>, treasury |-> N(0), author |-> au, total |-> WAdd(WAdd(a, b), au)]
Cfgs == [min : {<<1, 0>>, <<2, 3>>}, author : BOOLEAN]
Init == /\ cfg \in Cfgs
        /\ s = <<Purse(N(3000), N(20), N(0)), Purse(N(3000), N(60), N(0)), Purse(N(9000), N(0), N(0))>>
        /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls : LET w == FApply(cfg, s, k, Prices(k)) IN
            /\ s' = w /\ hist' = Append(hist, k)
            /\ last' = [cfg |-> cfg, call |-> k, ok |-> TRUE, paid |-> Pays(cfg, s, k, Prices(k)), pr |-> Prices(k), pre |-> s, post |-> w]
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
View == <<cfg, s>>
Sum(p) == WAdd(WTotal(p.payers), WAdd(p.treasury, p.author))
\* nothing appears or is lost unless there is no one to get it, and nothing native ever
Sums == /\ \A a \in DOMAIN s : Sum(s[a]) = s[a].total
        /\ s[1].total = N(3020)
\* no one is emptied by a fee, and fees in assets never reach the treasury
Alive == \A a \in DOMAIN s : s[a].payers[1] = W0 \/ WLeq(Minimum(cfg, a - 1, [ed |-> N(10)]), s[a].payers[1])
Apart == s[2].treasury = W0 /\ s[3].treasury = W0 /\ s[1].author = W0
\* only the one who sent it pays
OnlySender == [][\A a \in DOMAIN s : \A i \in 1..3 : s'[a].payers[i] # s[a].payers[i] => i = last'.call.by /\ a = last'.call.in + 1]_vars
EdgesHold == [][LET r == last' IN (r.call.op = "tx" => r.paid = Pays(r.cfg, r.pre, r.call, r.pr)) /\ r.post = FApply(r.cfg, r.pre, r.call, r.pr)]_vars

Key == [min |-> cfg.min, author |-> cfg.author]
Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> Key, path |-> hist'])>>, IOEnv.OUT)
\* real accounts: rich, poor and penniless in what the runtime's prices call so
Real(c) == [fam |-> "fees", min |-> c.min, author |-> c.author, rich |-> TRUE,
            nat |-> <<N(900000000), N(40000000), N(0)>>, ast |-> <<<<N(900000000), N(100000000), N(0)>>, <<<<4, 0>>, N(0), N(0)>>>>]
ASSUME "OUT" \in DOMAIN IOEnv => \A c \in Cfgs : CSVWrite("%1$s", <<ToJson([key |-> [min |-> c.min, author |-> c.author], world |-> Real(c)])>>, IOEnv.OUT)
=============================================================================
