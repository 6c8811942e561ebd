-------------------------- MODULE KreivoMotionsMC --------------------------
EXTENDS KreivoMotions, TLC, Json, IOUtils, CSV

CONSTANTS Motions, Waits, Starts, Depth
VARIABLES s, last, hist, depth
vars == <<s, last, hist, depth>>

Ranks == <<2, 1, 0>>
Purse == <<13, 2>>
Do(k, n) == [k |-> k, n |-> n]
Op(by, for, do, after) == [op |-> "open", by |-> by, for |-> for, do |-> do, after |-> after]
Stk(by, i) == [op |-> "stake", by |-> by, i |-> i]
Vt(by, i, aye) == [op |-> "vote", by |-> by, i |-> i, aye |-> aye]
Wt(n) == [op |-> "wait", n |-> n]
Kinds == [raise |-> Op(1, "root", Do("raise", 3), 0), lower |-> Op(1, "root", Do("lower", 2), 3), mint |-> Op(2, "memberships", Do("mint", 7), 0),
          usurp |-> Op(2, "memberships", Do("raise", 2), 0), cancel |-> Op(1, "canceller", Do("cancel", 1), 0), kill |-> Op(1, "killer", Do("kill", 1), 0),
          own |-> Op(1, "signed", Do("none", 0), 0), late |-> Op(2, "memberships", Do("mint", 8), 100)]
Beginnings ==
    <<  <<>>,
        <<Kinds.raise, Stk(1, 1), Vt(1, 1, TRUE)>>,
        <<Kinds.mint, Wt(1), Kinds.cancel, Stk(2, 1), Stk(1, 2), Vt(1, 2, TRUE), Vt(2, 2, TRUE), Wt(75)>>,
        <<Kinds.raise, Wt(1), Kinds.kill, Stk(1, 1), Stk(1, 2), Vt(2, 1, FALSE), Vt(1, 2, TRUE), Vt(2, 2, TRUE), Wt(75)>>,
        <<Kinds.mint, Wt(1), Kinds.usurp, Stk(1, 1), Stk(1, 2), Vt(1, 1, TRUE), Vt(1, 2, TRUE), Vt(2, 2, TRUE), Wt(76)>>,
        <<Kinds.lower, Stk(1, 1), Vt(1, 1, TRUE), Vt(2, 1, TRUE), Wt(1), Kinds.mint, Stk(1, 2), Vt(1, 2, TRUE), Wt(73)>> >>
Calls(w) ==
    {Kinds[m] : m \in Motions} \cup {Stk(by, i) : by \in 1..2, i \in 1..Len(w.polls) + 1}
    \cup {Vt(by, i, aye) : by \in 1..3, i \in 1..Len(w.polls), aye \in BOOLEAN} \cup {Wt(n) : n \in Waits}
    \cup [op : {"fee", "back"}, i : 1..Len(w.polls)] \cup [op : {"stranger"}, i : 1..Len(w.polls), aye : {TRUE}]

World0 == [blk |-> 1, polls |-> <<>>, q |-> <<<<>>, <<>>, <<>>, <<>>>>, ag |-> <<>>, free |-> Purse, held |-> <<0, 0>>, pot |-> 0, rank |-> Ranks, items |-> {}]
RECURSIVE After(_, _)
After(w, ks) == IF ks = <<>> THEN w ELSE After(MApply(w, Head(ks)).w, Tail(ks))
Init == \E b \in Starts : s = After(World0, Beginnings[b]) /\ hist = Beginnings[b] /\ last = <<>> /\ depth = 0
Next == /\ depth < Depth
        /\ \E k \in Calls(s) : LET e == MApply(s, k) IN
            /\ Len(e.w.polls) <= 3
            /\ s' = e.w /\ hist' = Append(hist, k) /\ depth' = depth + 1
            /\ last' = [call |-> k, ok |-> e.ok, pre |-> s, post |-> e.w]
Spec == Init /\ [][Next]_vars
View == s

EdgesHold == [][C40(last')]_vars
Tracks == 0..3
Orderly == Alive(s) /\ \A t \in Tracks : Places(s, t) /\ NoneWaits(s, t)
Solvent == Held(s) /\ Total(s.free, LAMBDA x : x) + Total(s.held, LAMBDA x : x) + s.pot = 15 /\ \A a \in DOMAIN s.free : s.free[a] >= 0
States(st) == Cardinality({i \in DOMAIN s.polls : s.polls[i].st = st})
\* nothing happens but by motions that were approved, once for each
Away(i) == IF s.rank[i] > Ranks[i] THEN s.rank[i] - Ranks[i] ELSE Ranks[i] - s.rank[i]
Warranted == Cardinality(s.items) + Total([i \in DOMAIN Ranks |-> Away(i)], LAMBDA x : x) + States("cancelled") + States("killed")
             + Len(SelectSeq(s.ag, LAMBDA e : e.k = "do")) <= States("approved")
\* an approved motion was staked, prepared and confirmed, and had the votes its track asks for at the very end
Merited == [][\A i \in DOMAIN s.polls : LET p == s.polls[i]
                                           q == s'.polls[i] IN
    /\ p.st \in Final => q.st = p.st /\ q.at = p.at
    /\ p.st = "open" /\ q.st = "approved" =>
        /\ p.stake # 0 /\ q.at >= p.at + 150 /\ p.ayes > 0
        /\ 100 * p.ayes >= (IF p.t = 3 THEN 50 ELSE 90) * (p.ayes + p.nays)
        /\ \A v \in DOMAIN p.votes : p.votes[v] # 0 => Ranks[v] >= 1
    /\ p.st = "open" /\ q.st = "rejected" => q.at >= p.since + 4 * Day
    /\ p.st = "open" /\ q.st = "timedout" => p.stake = 0 /\ q.at = p.at + 2 * Day]_vars

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "motions", rank |-> Ranks, purse |-> Purse]])>>, IOEnv.OUT)
=============================================================================
