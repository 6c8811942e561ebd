---------------------------- MODULE KreivoPayMC ----------------------------
(* One payment at a time between accounts of every kind, through all its     *)
(* ways to end.                                                              *)
EXTENDS KreivoPay, TLC, Json, IOUtils, CSV, SequencesExt

CONSTANTS Amounts, Mins

VARIABLES c, s, last, hist
vars == <<c, s, last, hist>>

Acct == <<User(1), User(2), Treasury, CommunityAccount(5), CommunityAccount(700), CommunityAccount(0)>> \o SetToSeq(LookAlike(5))
N == Len(Acct)
Cfg(m) == [fam |-> "pay", acct |-> Acct, min |-> <<m>>, res |-> 3, free |-> <<[x \in 1 .. N |-> 2000 * m]>>]
NumberOf(x) == CommunityOf(Acct[x])

\* a user, or a community, with an account of any kind
Pairs == {<<x, y>> \in (1 .. N) \X (1 .. N) : x \in {1, 4} \/ y \in {1, 4}}
Pays(w) == {[op |-> "pay", who |-> p[1], b |-> p[2], a |-> 1, amt |-> 250] : p \in Pairs}
    \cup {[op |-> "pay", who |-> x, b |-> y, a |-> 1, amt |-> v] : x \in {1, 4}, y \in {2, 5}, v \in Amounts}
    \cup {[op |-> "req", who |-> p[2], s |-> p[1], a |-> 1, amt |-> 250] : p \in Pairs}
    \cup {[op |-> "pay", who |-> 100 + x, c |-> NumberOf(x), b |-> y, a |-> 1, amt |-> 250] : x \in {4, 5, 6}, y \in {1, 4, 7}}
    \cup {[op |-> "req", who |-> 104, c |-> 5, s |-> 1, a |-> 1, amt |-> 250], [op |-> "pay", who |-> 99, b |-> 1, a |-> 1, amt |-> 250]}
\* the ones who could act on the payment there is
Ends(w) == UNION {
    {[op |-> o, who |-> p.s, id |-> 1] : o \in {"rel", "acc", "rfd"}} \cup {[op |-> o, who |-> p.b, id |-> 1] : o \in {"can", "dis"}}
    \cup [op : {"rsv"}, who : {99, p.s}, id : {1}, pct : {0, 40}, fav : {"s", "b"}]
    \cup (IF IsCommunity(Acct[p.s]) THEN {[op |-> "rel", who |-> 100 + p.s, c |-> NumberOf(p.s), id |-> 1]} ELSE {})
    : p \in {q \in w.pays : q.st # "finished"}}
Calls(w) == IF w.n = 0 THEN Pays(w) ELSE Ends(w)

Init ==
    /\ c \in {Cfg(m) : m \in Mins}
    /\ s = [blk |-> 1, free |-> c.free, held |-> <<[x \in 1 .. N |-> 0]>>, dust |-> <<0>>, pays |-> {}, par |-> {}, tasks |-> <<>>, n |-> 0]
    /\ last = <<>> /\ hist = <<>>
Next == \E k \in Calls(s) :
    LET r == KApply(c, s, k) IN
    /\ s' = r.w /\ c' = c
    /\ hist' = Append(hist, k)
    /\ last' = [cfg |-> c, pre |-> s, call |-> k, ok |-> r.ok, post |-> r.w, ev |-> r.ev]
Spec == Init /\ [][Next]_vars
View == <<c.min, s>>

EdgesHold == [][C25(last')]_vars
Conserved == Total(s.free[1]) + Total(s.held[1]) + s.dust[1] = Total(c.free[1])
\* the treasury never loses, and communities never pay it anything
Exempt == \A p \in s.pays : (IsCommunity(Acct[p.s]) => p.sf = <<>>) /\ (IsCommunity(Acct[p.b]) => p.bf = <<>>)
ASSUME \A i \in 7 .. N : ~IsCommunity(Acct[i])
ASSUME \A i, j \in 1 .. N : i # j => Acct[i] # Acct[j]

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> c.min[1], path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => \A m \in Mins : CSVWrite("%1$s", <<ToJson([key |-> m, world |-> Cfg(m)])>>, IOEnv.OUT)
=============================================================================
