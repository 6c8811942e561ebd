--------------------------- MODULE KreivoDecideMC ---------------------------
EXTENDS KreivoDecide, TLC, Json, IOUtils, CSV

CONSTANTS Kinds, Waits, Starts, Depth
VARIABLES s, last, hist, depth
vars == <<s, last, hist, depth>>

Curve(ceil, floor) == [ceil |-> ceil, floor |-> floor]
Rules == << [prep |-> 2, period |-> 10, confirm |-> 3, enact |-> 2, most |-> 1, stake |-> 2, app |-> Curve(100, 50), sup |-> Curve(60, 0)],
            [prep |-> 1, period |-> 8, confirm |-> 2, enact |-> 1, most |-> 2, stake |-> 0, app |-> Curve(60, 60), sup |-> Curve(90, 10)] >>
Cfg == [fam |-> "decide", rules |-> Rules, rule |-> <<1, 2>>, meth |-> <<"membership", "rank">>, mem |-> <<<<1, 0, 2>>, <<-1, 2, 1>>>>,
        pool |-> <<1, 0>>, purse |-> <<4, 0, 1>>, kitty |-> <<1, 2>>, coin |-> <<<<3, 1, 1>>, <<0, 2, 2>>>>]
Do(k, n) == [k |-> k, n |-> n]
Op(by, for, do, after) == [op |-> "open", by |-> by, for |-> for, do |-> do, after |-> after]
Stk(by, i) == [op |-> "stake", by |-> by, i |-> i]
Vt(by, c, i, aye) == [op |-> "vote", by |-> by, c |-> c, i |-> i, aye |-> aye, v |-> "one", n |-> 1]
Coin(by, c, i, aye, n) == [op |-> "vote", by |-> by, c |-> c, i |-> i, aye |-> aye, v |-> "coin", n |-> n]
Un(by, c, i) == [op |-> "unvote", by |-> by, c |-> c, i |-> i]
Wt(n) == [op |-> "wait", n |-> n]
Kind == [spend |-> Op(1, 1, Do("spend", 2), 0), add |-> Op(2, 1, Do("add", 2), 4), coin |-> Op(3, 1, Do("meth", 3), 0), lax |-> Op(1, 1, Do("rules", 2), 0),
         raise |-> Op(2, 2, Do("raise", 3), 0), lower |-> Op(3, 2, Do("lower", 2), 0), kill |-> Op(1, 1, Do("kill", 1), 0), meddle |-> Op(2, 1, Do("meddle", 2), 0),
         alien |-> Op(1, 2, Do("spend", 1), 0), pay |-> Op(2, 2, Do("spend", 1), 0)]
Beginnings ==
    <<  <<>>,
        <<Kind.spend, Stk(1, 1), Vt(1, 1, 1, TRUE), Vt(3, 1, 1, TRUE), Wt(2)>>,
        <<Kind.coin, Stk(1, 1), Vt(1, 1, 1, TRUE), Vt(2, 1, 1, TRUE), Vt(3, 1, 1, TRUE), Wt(2), Kind.spend, Stk(1, 2), Vt(2, 1, 2, TRUE), Wt(4)>>,
        <<Kind.lax, Kind.spend, Stk(1, 1), Stk(1, 2), Vt(1, 1, 1, TRUE), Vt(2, 1, 1, TRUE), Vt(3, 1, 1, TRUE), Vt(1, 1, 2, FALSE), Wt(5)>>,
        <<Kind.raise, Kind.pay, Stk(3, 1), Stk(3, 2), Vt(2, 2, 1, TRUE), Vt(3, 2, 2, FALSE), Wt(2)>>,
        <<Kind.kill, Kind.meddle, Stk(1, 1), Vt(1, 1, 1, TRUE), Vt(2, 1, 1, TRUE), Vt(3, 1, 1, TRUE), Wt(5), Stk(1, 2)>> >>
Calls(w) ==
    {Kind[m] : m \in Kinds} \cup {Stk(by, i) : by \in {1, 3}, i \in 1..Len(w.polls) + 1}
    \cup {Vt(by, c, i, aye) : by \in 1..3, c \in 1..2, i \in 1..Len(w.polls), aye \in BOOLEAN}
    \cup {Coin(by, 1, i, TRUE, n) : by \in {1}, i \in 1..Len(w.polls), n \in {0, 1}} \cup {Un(by, c, i) : by \in {1, 3}, c \in 1..2, i \in 1..Len(w.polls)}
    \cup {Wt(n) : n \in Waits} \cup [op : {"fee", "back"}, i : 1..Len(w.polls)]
    \cup [op : {"cancel", "kill"}, i : 1..Len(w.polls), as : {"root", "community", "killer"}]

Start == [blk |-> 1, polls |-> <<>>, q |-> <<<<>>, <<>>>>, ag |-> <<>>, free |-> Cfg.purse, held |-> <<0, 0, 0>>, pot |-> 0, kitty |-> Cfg.kitty,
          tot |-> <<3, 2>>, rk |-> <<3, 3>>, mem |-> <<<<1, 1, 1>>, <<0, 1, 1>>>>, r |-> Cfg.mem, pool |-> Cfg.pool, meth |-> Cfg.meth, rule |-> Cfg.rule,
          rules |-> Rules, issue |-> <<5, 4>>]
Act(w, k) == DApply(w, k, IF Votes(w, k) THEN Sums(w, k) ELSE <<>>)
RECURSIVE After(_, _)
After(w, ks) == IF ks = <<>> THEN w ELSE After(Act(w, Head(ks)).w, Tail(ks))
Init == \E b \in Starts : s = After(Start, Beginnings[b]) /\ hist = Beginnings[b] /\ last = <<>> /\ depth = 0
Next == /\ depth < Depth
        /\ \E k \in Calls(s) : LET e == Act(s, k) IN
            /\ Len(e.w.polls) <= 3
            /\ s' = e.w /\ hist' = Append(hist, k) /\ depth' = depth + 1
            /\ last' = [call |-> k, ok |-> e.ok, pre |-> s, post |-> e.w]
Spec == Init /\ [][Next]_vars
View == s

EdgesHold == [][C41(last')]_vars
\* places may be given up or added by changing the rules, which those that wait only notice when one is free
Orderly == Alive(s) /\ \A t \in 0..1 : s.rule = Cfg.rule => Places(s, t) /\ NoneWaits(s, t)
Solvent == /\ Held(s) /\ \A a \in DOMAIN s.free : s.free[a] >= 0
           /\ Total(s.free, LAMBDA x : x) + Total(s.held, LAMBDA x : x) + s.pot + Total(s.kitty, LAMBDA x : x) = 8
States(st) == Cardinality({i \in DOMAIN s.polls : s.polls[i].st = st})
Away(x, y) == IF x > y THEN x - y ELSE y - x
\* what a community did, counted
Deeds(c) == Away(s.kitty[c], Cfg.kitty[c]) + Away(s.pool[c], Cfg.pool[c]) + (IF s.meth[c] = Cfg.meth[c] THEN 0 ELSE 1)
            + (IF s.rule[c] = Cfg.rule[c] THEN 0 ELSE 1) + Total([a \in DOMAIN s.free |-> Away(s.r[c][a], Cfg.mem[c][a])], LAMBDA x : x)
\* nothing happens but by polls that were approved, once for each
Warranted == Deeds(1) + Deeds(2) + Len(SelectSeq(s.ag, LAMBDA e : e.k = "do")) <= States("approved")
\* memberships and ranks add up
Counted == \A c \in DOMAIN s.tot : s.tot[c] = Total(s.mem[c], LAMBDA x : x) /\ s.rk[c] = Total(s.r[c], Plus)
\* an approved poll was staked and prepared, members voted for it as its track asks, and nobody else counted
Merited == [][\A i \in DOMAIN s.polls : LET p == s.polls[i]
                                           q == s'.polls[i]
                                           c == p.t + 1 IN
    /\ p.st \in Final => q.st = p.st /\ q.at = p.at
    /\ p.st = "open" =>
        /\ \A a \in DOMAIN p.votes : p.votes[a] # 0 => s.mem[c][a] > 0
        /\ \A d \in DOMAIN s.kitty \ {c} : q.st = "open" => p.for # d
    /\ p.st = "open" /\ q.st = "approved" => p.stake # 0 /\ q.at >= p.at + 3 /\ p.ayes > 0 /\ 2 * p.ayes >= p.nays
    /\ p.st = "open" /\ q.st = "rejected" => q.at >= p.since + 8
    /\ p.st = "open" /\ q.st = "timedout" => p.stake = 0 /\ q.at = p.at + 14 * Day
    /\ p.st = "open" /\ q.st \in {"cancelled", "killed"} => last'.call.op \in {"cancel", "kill"} /\ last'.call.as = "root"]_vars

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> Cfg])>>, IOEnv.OUT)
=============================================================================
