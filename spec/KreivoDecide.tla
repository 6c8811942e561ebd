---------------------------- MODULE KreivoDecide ----------------------------
(* How communities decide: polls their members open on the community's own   *)
(* track, vote on by the way of deciding the community has chosen, and what  *)
(* is carried out of them in the community's name. Money is counted in whole *)
(* units; tracks are numbered from zero, as communities are from one.        *)
(*                                                                           *)
(* world: that of PollLife with, per community, kitty: its money, tot: its   *)
(* memberships given out, rk: the sum of their ranks, mem: how many each     *)
(* account holds, r: the rank of the membership an account votes with (-1:   *)
(* none), pool: those it has to give, meth: its way of deciding (membership, *)
(* rank or asset), rule: which of rules its track follows, issue: what there *)
(* is of its asset. A poll's votes are kept per account, positive for aye.   *)
EXTENDS Integers, Sequences, FiniteSets

Day == 24 * 60 * 5
Methods == <<"membership", "rank", "asset">>
Nothing == [k |-> "none", n |-> 1]
DBlank == [st |-> "over", t |-> 0, for |-> 0, do |-> Nothing, after |-> 0, at |-> 0, since |-> 0, conf |-> 0, al |-> 0, inq |-> FALSE,
           by |-> 0, stake |-> 0, put |-> 0, votes |-> <<>>, ayes |-> 0, nays |-> 0, bare |-> 0]
DRules(w, t) == w.rules[w.rule[t + 1]]
Parts == INSTANCE PollLife WITH Rules <- DRules, Approval <- DRules, Support <- DRules, Ayes <- DRules, Blank <- DBlank, Carry <- DRules,
    CancelPower <- 0, KillPower <- 0, Fee <- 0, Timeout <- 14 * Day, MaxQueue <- 100
OrOne(n) == IF n = 0 THEN 1 ELSE n
\* everyone who could be for it, by the way the community decides now
Electorate(w, c) == CASE w.meth[c] = "membership" -> w.tot[c] [] w.meth[c] = "rank" -> w.rk[c] [] OTHER -> w.issue[c]
DApproval(w, p) == Parts!Share(p.ayes, OrOne(p.ayes + p.nays))
DSupport(w, p) == Parts!Share(p.bare, OrOne(Electorate(w, p.t + 1)))
DAyes(w, p) == p.ayes
\* a community decides about its own members, money, track and way of deciding, and nothing else
DCarry(w, d) ==
    LET c == d.for
        n == d.do.n IN
    CASE d.do.k = "raise" /\ w.r[c][n] >= 0 -> [w EXCEPT !.r[c][n] = @ + 1, !.rk[c] = @ + 1]
      [] d.do.k = "lower" /\ w.r[c][n] >= 1 -> [w EXCEPT !.r[c][n] = @ - 1, !.rk[c] = @ - 1]
      [] d.do.k = "add" /\ w.pool[c] >= 1 -> [w EXCEPT !.pool[c] = @ - 1, !.mem[c][n] = @ + 1, !.tot[c] = @ + 1]
      [] d.do.k = "meth" -> [w EXCEPT !.meth[c] = Methods[n]]
      [] d.do.k = "spend" /\ w.kitty[c] >= 1 -> [w EXCEPT !.kitty[c] = @ - 1, !.free[n] = @ + 1]
      [] d.do.k = "rules" -> [w EXCEPT !.rule[c] = n]
      [] OTHER -> w
INSTANCE PollLife WITH Rules <- DRules, Approval <- DApproval, Support <- DSupport, Ayes <- DAyes, Blank <- DBlank, Carry <- DCarry,
    CancelPower <- 0, KillPower <- 0, Fee <- 0, Timeout <- 14 * Day, MaxQueue <- 100

Plus(v) == IF v > 0 THEN v ELSE 0
Total(v, F(_)) == LET S[i \in 0..Len(v)] == IF i = 0 THEN 0 ELSE F(v[i]) + S[i - 1] IN S[Len(v)]
\* what a vote of that many counts for, by the way the community decides now
Force(w, c, a, v) == IF w.meth[c] = "rank" THEN w.r[c][a] * v ELSE v
Cast(k) == IF k.op = "unvote" THEN 0 ELSE LET n == IF k.v = "one" THEN 1 ELSE k.n IN IF k.aye THEN n ELSE -n
Voice(w, k) == w.r[k.c][k.by] >= 0 /\ Open(w, k.i) /\ w.polls[k.i].t = k.c - 1
MayVote(w, k) == /\ Voice(w, k)
                 /\ \/ k.v = "one" /\ w.meth[k.c] \in {"membership", "rank"}
                    \/ k.v = "coin" /\ w.meth[k.c] = "asset" /\ k.n >= 1
MayUnvote(w, k) == Voice(w, k) /\ w.polls[k.i].votes[k.by] # 0
\* the sums after that vote, when the account's vote before it counted as it would count now
Sums(w, k) ==
    LET p == w.polls[k.i]
        old == Force(w, k.c, k.by, p.votes[k.by])
        new == Force(w, k.c, k.by, Cast(k))
    IN [ayes |-> Most(0, p.ayes - Plus(old)) + Plus(new), nays |-> Most(0, p.nays - Plus(-old)) + Plus(-new)]
WithVote(p, k, sums) ==
    LET votes == [p.votes EXCEPT ![k.by] = Cast(k)] IN
    [p EXCEPT !.votes = votes, !.ayes = sums.ayes, !.nays = sums.nays, !.bare = Total(votes, Plus)]

Yes(w) == [ok |-> TRUE, w |-> w]
No(w) == [ok |-> FALSE, w |-> w]
\* sums: what ayes and nays come to with the vote
DApply(w, k, sums) ==
    CASE k.op = "open" ->
            IF w.mem[k.for][k.by] = 0 THEN No(w)
            ELSE Yes(Opened(w, [DBlank EXCEPT !.st = "open", !.t = k.for - 1, !.for = k.for, !.do = k.do, !.after = k.after, !.at = w.blk, !.by = k.by,
                                              !.votes = [a \in DOMAIN w.free |-> 0]]))
      [] k.op = "stake" -> IF MayStake(w, k.i, k.by) THEN Yes(Stake(w, k.i, k.by)) ELSE No(w)
      [] k.op = "vote" -> IF MayVote(w, k) THEN Yes(Voted(w, k.i, WithVote(w.polls[k.i], k, sums))) ELSE No(w)
      [] k.op = "unvote" -> IF MayUnvote(w, k) THEN Yes(Voted(w, k.i, WithVote(w.polls[k.i], k, sums))) ELSE No(w)
      [] k.op = "fee" -> IF MayFee(w, k.i) THEN Yes(FeeBack(w, k.i)) ELSE No(w)
      [] k.op = "back" -> IF MayStakeBack(w, k.i) THEN Yes(StakeBack(w, k.i)) ELSE No(w)
      [] k.op = "cancel" -> IF k.as = "root" /\ Open(w, k.i) THEN Yes(Over(w, k.i, "cancelled")) ELSE No(w)
      [] k.op = "kill" -> IF k.as = "root" /\ Open(w, k.i) THEN Yes(Kill(w, k.i)) ELSE No(w)
      [] k.op = "wait" -> Yes(Until(w, w.blk + k.n))
Votes(w, k) == k.op \in {"vote", "unvote"} /\ Voice(w, k)

\* r: [call, ok, pre, post]. How a vote is taken back is another property's matter: what the sums come to
\* then is taken from what was seen.
C41(r) ==
    LET again == Votes(r.pre, r.call) /\ r.pre.polls[r.call.i].votes[r.call.by] # 0
        seen == r.post.polls[r.call.i]
        sums == IF ~Votes(r.pre, r.call) THEN <<>>
                ELSE IF again /\ r.call.i \in DOMAIN r.post.polls THEN [ayes |-> seen.ayes, nays |-> seen.nays] ELSE Sums(r.pre, r.call)
        e == DApply(r.pre, r.call, sums)
    IN r.ok = e.ok /\ r.post = e.w
=============================================================================
