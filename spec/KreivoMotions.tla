--------------------------- MODULE KreivoMotions ---------------------------
(* How the collective of the communities decides: motions anyone may open    *)
(* for a fee, which seats of rank one and more vote on with the weight of    *)
(* their rank, and what is carried out of them. The runtime counts five      *)
(* blocks a minute; money is counted in whole units.                         *)
(*                                                                           *)
(* world: that of PollLife with rank: per seat (-1: none), items: the        *)
(* memberships that exist. A motion's votes are kept per seat, positive for  *)
(* aye and negative for nay, next to their sums ayes and nays and the number *)
(* bare of seats for it.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Minute == 5
Day == 24 * 60 * Minute
Track(k) == CASE k = "root" -> 0 [] k = "canceller" -> 1 [] k = "killer" -> 2 [] k = "memberships" -> 3 [] OTHER -> -1
MRules(w, t) ==
    [prep |-> 15 * Minute, period |-> 4 * Day, confirm |-> 15 * Minute, enact |-> 1, most |-> 1, stake |-> IF t = 0 THEN 10 ELSE 1,
     app |-> [floor |-> IF t = 3 THEN 50 ELSE 90, ceil |-> 100], sup |-> [floor |-> IF t = 3 THEN 50 ELSE 0, ceil |-> 100]]
Nothing == [k |-> "none", n |-> 0]
MBlank == [st |-> "over", t |-> 0, for |-> "", do |-> Nothing, after |-> 0, at |-> 0, since |-> 0, conf |-> 0, al |-> 0, inq |-> FALSE,
           by |-> 0, stake |-> 0, put |-> 0, votes |-> <<>>, ayes |-> 0, nays |-> 0, bare |-> 0]
Voters(w) == {s \in DOMAIN w.rank : w.rank[s] >= 1}
Parts == INSTANCE PollLife WITH Rules <- MRules, Approval <- MRules, Support <- MRules, Ayes <- MRules, Blank <- MBlank, Carry <- MRules,
    CancelPower <- "canceller", KillPower <- "killer", Fee <- 1, Timeout <- 2 * Day, MaxQueue <- 10
MApproval(w, p) == Parts!Share(p.ayes, IF p.ayes + p.nays = 0 THEN 1 ELSE p.ayes + p.nays)
MSupport(w, p) == Parts!Share(p.bare, Cardinality(Voters(w)))
\* those that wait are ranked by how many seats are for them
MAyes(w, p) == p.bare
MCarry(w, d) ==
    CASE d.do.k = "raise" /\ d.for = "root" /\ w.rank[d.do.n] >= 0 -> [w EXCEPT !.rank[d.do.n] = @ + 1]
      [] d.do.k = "lower" /\ d.for = "root" /\ w.rank[d.do.n] >= 0 -> [w EXCEPT !.rank[d.do.n] = @ - 1]
      [] d.do.k = "mint" /\ d.for \in {"root", "memberships"} /\ d.do.n \notin w.items -> [w EXCEPT !.items = @ \cup {d.do.n}]
      [] OTHER -> w
INSTANCE PollLife WITH Rules <- MRules, Approval <- MApproval, Support <- MSupport, Ayes <- MAyes, Blank <- MBlank, Carry <- MCarry,
    CancelPower <- "canceller", KillPower <- "killer", Fee <- 1, Timeout <- 2 * Day, MaxQueue <- 10

Plus(v) == IF v > 0 THEN v ELSE 0
Total(v, F(_)) == LET S[i \in 0..Len(v)] == IF i = 0 THEN 0 ELSE F(v[i]) + S[i - 1] IN S[Len(v)]
WithVote(p, s, v) ==
    LET votes == [p.votes EXCEPT ![s] = v] IN
    [p EXCEPT !.votes = votes, !.ayes = Total(votes, Plus), !.nays = Total(votes, LAMBDA x : Plus(-x)), !.bare = Cardinality({i \in DOMAIN votes : votes[i] > 0})]

Yes(w) == [ok |-> TRUE, w |-> w]
No(w) == [ok |-> FALSE, w |-> w]
MApply(w, k) ==
    CASE k.op = "open" ->
            IF Track(k.for) = -1 \/ w.free[k.by] < 1 THEN No(w)
            ELSE Yes(Opened(w, [MBlank EXCEPT !.st = "open", !.t = Track(k.for), !.for = k.for, !.do = k.do, !.after = k.after, !.at = w.blk, !.by = k.by,
                                              !.votes = [s \in DOMAIN w.rank |-> 0]]))
      [] k.op = "stake" -> IF MayStake(w, k.i, k.by) THEN Yes(Stake(w, k.i, k.by)) ELSE No(w)
      [] k.op = "vote" ->
            IF Open(w, k.i) /\ w.rank[k.by] >= 1
            THEN Yes(Voted(w, k.i, WithVote(w.polls[k.i], k.by, IF k.aye THEN w.rank[k.by] ELSE -w.rank[k.by])))
            ELSE No(w)
      \* votes count only when cast by those who hold the seats
      [] k.op = "stranger" -> No(w)
      [] k.op = "fee" -> IF MayFee(w, k.i) THEN Yes(FeeBack(w, k.i)) ELSE No(w)
      [] k.op = "back" -> IF MayStakeBack(w, k.i) THEN Yes(StakeBack(w, k.i)) ELSE No(w)
      [] k.op = "wait" -> Yes(Until(w, w.blk + k.n))

\* r: [call, ok, pre, post]
C40(r) == LET e == MApply(r.pre, r.call) IN r.ok = e.ok /\ r.post = e.w
=============================================================================
