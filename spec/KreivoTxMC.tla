----------------------------- MODULE KreivoTxMC -----------------------------
EXTENDS KreivoTx, TLC, Json, IOUtils, CSV

CONSTANTS Depth
VARIABLES key, s, took, last, hist
vars == <<key, s, took, last, hist>>

Unit == <<931, 346361856>>
Half == <<465, 710051840>>
Plus(n) == WAdd(WMul(n, Unit), Half)
Weight(k) == IF k.call.what = "give" THEN N(1000) ELSE N(10000)
X(k) == CASE k.op = "tx" -> [fee |-> WAdd(N(436666260), k.tip), w |-> Weight(k), base |-> N(125000000), ed |-> N(33333333)]
          [] k.op = "fill" -> [to |-> WSub(Most, N(125001000 - k.d))]
          [] OTHER -> [none |-> 0]

Gift(to) == [what |-> "give", to |-> to, n |-> Unit]
TooMuch == [what |-> "give", to |-> 2, n |-> WMul(1000, Unit)]
Act == [what |-> "act", to |-> 1, n |-> Unit]
Login(cx) == [what |-> "login", cx |-> cx, dur |-> 2]
Base(by, no, c) == [op |-> "tx", by |-> by, no |-> no, sig |-> "good", gen |-> TRUE, spec |-> TRUE, txv |-> TRUE, era |-> <<>>, tip |-> N(0), in |-> 0, call |-> c]
\* one thing is not as it should be
Askew(k) == {[k EXCEPT !.sig = x] : x \in {"other", "call", "terms", "community", "none"}}
    \cup {[k EXCEPT !.gen = FALSE], [k EXCEPT !.spec = FALSE], [k EXCEPT !.txv = FALSE]}
    \cup {[k EXCEPT !.era = <<p, b>>] : p \in {4, 8}, b \in {1, 2, 3, 6}}
Tipped(k) == {[k EXCEPT !.tip = N(1000000)], [k EXCEPT !.in = 1], [k EXCEPT !.in = 1, !.tip = N(1000000)]}
Calls == {Base(by, no, c) : by \in {1, 3}, no \in 0..2, c \in {Gift(2), TooMuch, Act, Login(1), Login(4)}}
    \cup {Base(2, no, c) : no \in 0..2, c \in {Gift(1), Act}}
    \cup {Base(5, 0, c) : c \in {Gift(1), Act, Login(1)}}
    \cup UNION {Askew(Base(1, no, Gift(2))) \cup Tipped(Base(1, no, Gift(2))) : no \in {0, 1}}
    \cup Askew(Base(3, 0, Login(1))) \cup Askew(Base(3, 0, Act)) \cup Tipped(Base(3, 0, Act)) \cup Tipped(Base(2, 0, Gift(1)))
    \cup {[op |-> "wait", n |-> n] : n \in {1, 2, 4}}
    \cup {[op |-> "fill", d |-> d] : d \in {0, 1}}

Gas == [full |-> <<N(1500), N(15000)>>, none |-> <<N(999), N(9999)>>]
World(g) == [blk |-> 2, used |-> W0, nonce |-> <<0, 0, 0, 0, 0>>,
             nat |-> <<Plus(100), Plus(50), N(70000000), Plus(10), W0>>, ast |-> <<Plus(5), W0, W0, Plus(1), W0>>,
             tre |-> Unit, aut |-> Unit, gas |-> Gas[g], key |-> <<0, 0, 0, 0, 0>>]
Init == key \in DOMAIN Gas /\ s = World(key) /\ took = {} /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls : LET e == TApply(s, k, X(k)) IN
            /\ s' = e.w /\ hist' = Append(hist, k)
            /\ took' = IF k.op = "tx" /\ e.taken THEN (IF Free(s, k) THEN took ELSE took \cup {k}) ELSE took
            /\ last' = [call |-> k, x |-> X(k), taken |-> e.taken, done |-> e.done, pre |-> s, post |-> e.w]
        /\ UNCHANGED key
Spec == Init /\ [][Next]_vars
View == <<key, s, took>>

\* nothing that costs anything is taken twice, whatever happens in between
Once == [][LET r == last' IN (r.call.op = "tx" /\ r.taken /\ ~Free(r.pre, r.call)) => r.call \notin took]_vars
\* nothing signed otherwise leaves a trace
Signed == [][LET r == last' IN (r.call.op = "tx" /\ s' # s) => AsSigned(r.pre, r.call)]_vars
\* a key never pays for the one it acts for, and no one pays for someone else
Mine == [][LET r == last' IN r.call.op = "tx" =>
            \A a \in 1..5 : (WLess(s'.nat[a], s.nat[a]) \/ WLess(s'.ast[a], s.ast[a])) => (a = r.call.by /\ ~Acts(s, a)) \/ (a = User /\ Acts(s, r.call.by)) \/ (a = r.call.by /\ r.call.call.what = "give")]_vars
\* a number is used up by what is taken, even if it fails
Counted == [][LET r == last' IN (r.call.op = "tx" /\ r.taken /\ ~Free(r.pre, r.call)) => s'.nonce[r.call.by] = s.nonce[r.call.by] + 1]_vars
EdgesHold == [][C42(last') /\ C43(last')]_vars
Sum(p) == WTotal(p)
Total == WAdd(Sum(s.nat), s.tre) = WAdd(Sum(World(key).nat), Unit) /\ WAdd(Sum(s.ast), s.aut) = WAdd(Sum(World(key).ast), Unit)
Bounded == WLeq(s.used, Most)

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> key, path |-> hist'])>>, IOEnv.OUT)
Real(g) == LET w == World(g) IN [fam |-> "tx", nat |-> w.nat, ast |-> w.ast, gas |-> w.gas]
ASSUME "OUT" \in DOMAIN IOEnv => \A g \in DOMAIN Gas : CSVWrite("%1$s", <<ToJson([key |-> g, world |-> Real(g)])>>, IOEnv.OUT)
=============================================================================
