------------------------------ MODULE PollLife ------------------------------
(* The life of a poll: opened for a fee, prepared, waiting for a free place  *)
(* on its track, decided on while what it needs falls, confirmed, and then   *)
(* carried out with the authority it asked for - or rejected, timed out,     *)
(* cancelled or killed.                                                      *)
(*                                                                           *)
(* world: [blk, polls, q: per track the polls that wait as <<poll, ayes>>,   *)
(*         ag: what is to happen, by block and then in the order it was put  *)
(*         down: [at, k: "look" at poll n, "free" a place on track n or "do" *)
(*         what was decided (for, do)], free and held: money per payer, pot, *)
(*         ...]                                                              *)
(* poll:  [st, t, for, do, after, at, since, conf, al, inq, by, stake, put,  *)
(*        ...]: at: opened or over in that block, since: decided on since    *)
(*        then, conf: confirmed then, al: looked at then, by and stake: who  *)
(*        paid the fee and the stake put (0: nobody, or given back)          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
    Rules(_, _),     \* world, track -> [prep, period, confirm, enact, most, stake, app, sup]
    Approval(_, _),  \* world, poll -> share of the votes that is for it, in billionths
    Support(_, _),   \* world, poll -> share of everyone that is for it, in billionths
    Ayes(_, _),      \* world, poll -> what ranks those that wait
    Blank,           \* what is left of a poll that is over
    Carry(_, _),     \* world, decision -> world
    CancelPower, KillPower, Fee, Timeout, MaxQueue

Whole == 1000000000
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
\* the share a of b in billionths, rounded down (b up to two million)
Share(a, b) ==
    IF b = 0 THEN 0 ELSE IF a >= b THEN Whole
    ELSE LET a1 == a * 1000
             a2 == (a1 % b) * 1000
             a3 == (a2 % b) * 1000
         IN (a1 \div b) * 1000000 + (a2 \div b) * 1000 + a3 \div b
\* k hundredths of x, rounded down
Percent(k, x) == (x \div 100) * k + ((x % 100) * k) \div 100
\* what a curve [floor, ceil] (percent) asks for at point x
Need(c, x) == c.ceil * 10000000 - Percent(c.ceil - c.floor, x)
\* where the curve has fallen to y
Reach(c, y) ==
    LET z == c.ceil * 10000000 - y
        k == c.ceil - c.floor
        rest == (z % k) * 100
    IN IF z <= 0 THEN 0 ELSE IF y < Need(c, Whole) THEN Whole
       ELSE (z \div k) * 100 + rest \div k + (IF rest % k = 0 THEN 0 ELSE 1)
\* x billionths of p, rounded up (p up to two million)
Part(x, p) ==
    LET c == (x % 1000) * p
        b == ((x \div 1000) % 1000) * p + c \div 1000
        a == (x \div 1000000) * p + b \div 1000
    IN a \div 1000 + (IF a % 1000 = 0 /\ b % 1000 = 0 /\ c % 1000 = 0 THEN 0 ELSE 1)

Open(w, i) == i \in DOMAIN w.polls /\ w.polls[i].st = "open"
Passes(w, p, e) ==
    LET r == Rules(w, p.t)
        x == Share(e, r.period)
    IN Support(w, p) >= Need(r.sup, x) /\ Approval(w, p) >= Need(r.app, x)
\* when what is needed has fallen to what there is, or the decision is over
When(w, p) ==
    LET r == Rules(w, p.t) IN
    IF p.conf # 0 THEN p.conf ELSE p.since + Part(Most(Reach(r.sup, Support(w, p)), Reach(r.app, Approval(w, p))), r.period)

Put(w, e) ==
    LET n == Cardinality({j \in DOMAIN w.ag : w.ag[j].at <= e.at}) IN
    IF e.at <= w.blk THEN w ELSE [w EXCEPT !.ag = SubSeq(@, 1, n) \o <<e>> \o SubSeq(@, n + 1, Len(@))]
\* poll i is not looked at any more when it was to be
Quiet(w, i) ==
    LET mine == {j \in DOMAIN w.ag : w.ag[j] = [at |-> w.polls[i].al, k |-> "look", n |-> i]}
        j == CHOOSE m \in mine : \A o \in mine : o <= m
    IN [w EXCEPT !.polls[i].al = 0, !.ag = IF mine = {} THEN @ ELSE SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
Look(w, i, at) ==
    IF w.polls[i].al = at THEN w
    ELSE [Put(Quiet(w, i), [at |-> at, k |-> "look", n |-> i]) EXCEPT !.polls[i].al = IF at > w.blk THEN at ELSE 0]

\* w: the world, p: poll i as it is now
Begin(w, i, p) ==
    LET q == [p EXCEPT !.since = w.blk, !.inq = FALSE, !.conf = IF Passes(w, p, 0) THEN w.blk + Rules(w, p.t).confirm ELSE 0]
    IN Look([w EXCEPT !.polls[i] = q], i, Most(When(w, q), w.blk + 1))

Short(s) == IF Len(s) > MaxQueue THEN Tail(s) ELSE s
Wait(w, i, p) ==
    LET v == Ayes(w, p)
        q == w.q[p.t + 1]
        rest == SelectSeq(q, LAMBDA x : x[1] # i)
        n == Cardinality({m \in DOMAIN rest : rest[m][2] < v})
        in == SubSeq(rest, 1, n) \o << <<i, v>> >> \o SubSeq(rest, n + 1, Len(rest))
    IN Quiet([w EXCEPT !.polls[i].inq = TRUE,
                       !.q[p.t + 1] = IF rest # q THEN in ELSE IF ~p.inq \/ n > 0 THEN Short(in) ELSE q], i)
Busy(w, t) ==
    Cardinality({i \in DOMAIN w.polls : w.polls[i].st = "open" /\ w.polls[i].t = t /\ w.polls[i].since # 0})
    + Len(SelectSeq(w.ag, LAMBDA e : e.k = "free" /\ e.n = t))

Over(w, i, st) ==
    LET p == w.polls[i]
        v == [Quiet(w, i) EXCEPT !.polls[i] = [Blank EXCEPT !.st = st, !.at = w.blk, !.by = p.by, !.stake = p.stake, !.put = p.put]]
    IN IF p.since = 0 THEN v ELSE Put(v, [at |-> w.blk + 1, k |-> "free", n |-> p.t])
Taken(w, who, n) == IF who = 0 THEN w ELSE [w EXCEPT !.held[who] = @ - n, !.pot = @ + n]
GivenBack(w, who, n) == [w EXCEPT !.held[who] = @ - n, !.free[who] = @ + n]
Kill(w, i) ==
    LET p == w.polls[i]
        v == Over(Taken(Taken(w, p.by, Fee), p.stake, p.put), i, "killed")
    IN [v EXCEPT !.polls[i].by = 0, !.polls[i].stake = 0, !.polls[i].put = 0]
Approve(w, i) ==
    LET p == w.polls[i] IN
    Put(Over(w, i, "approved"), [at |-> w.blk + Most(p.after, Most(1, Rules(w, p.t).enact)), k |-> "do", for |-> p.for, do |-> p.do])

\* poll i is looked at
Service(w, i) ==
    LET p == w.polls[i]
        r == Rules(w, p.t)
    IN
    IF p.since = 0 THEN
        IF p.inq THEN Wait(w, i, p)
        ELSE IF p.stake # 0 /\ w.blk >= p.at + r.prep THEN (IF Busy(w, p.t) < r.most THEN Begin(w, i, p) ELSE Wait(w, i, p))
        ELSE IF w.blk >= p.at + Timeout THEN Over(w, i, "timedout")
        ELSE Look(w, i, IF p.stake = 0 THEN p.at + Timeout ELSE p.at + r.prep)
    ELSE IF Passes(w, p, Least(w.blk - p.since, r.period)) THEN
        IF p.conf = 0 THEN Look([w EXCEPT !.polls[i].conf = w.blk + r.confirm], i, w.blk + r.confirm)
        ELSE IF w.blk >= p.conf THEN Approve(w, i)
        ELSE Look(w, i, p.conf)
    ELSE IF w.blk >= p.since + r.period THEN Over(w, i, "rejected")
    ELSE LET q == [p EXCEPT !.conf = 0] IN Look([w EXCEPT !.polls[i] = q], i, When(w, q))
\* a place on the track is free: of those that wait, the one with most ayes takes it
Release(w, t) ==
    LET q == w.q[t + 1]
        alive == {m \in DOMAIN q : Open(w, q[m][1])}
        n == CHOOSE m \in alive : \A o \in alive : o <= m
    IN IF alive = {} THEN w ELSE Begin([w EXCEPT !.q[t + 1] = SubSeq(q, 1, n - 1)], q[n][1], w.polls[q[n][1]])

Enact(w, d) ==
    CASE d.do.k = "cancel" -> IF d.for = CancelPower /\ Open(w, d.do.n) THEN Over(w, d.do.n, "cancelled") ELSE w
      [] d.do.k = "kill" -> IF d.for = KillPower /\ Open(w, d.do.n) THEN Kill(w, d.do.n) ELSE w
      [] OTHER -> Carry(w, d)

\* what a block was to bring happens even where something before it in the block would have called it off,
\* which then finds nothing to do; a place counts as taken until it is given away
Meet(w, e) ==
    CASE e.k = "do" -> Enact(w, e)
      [] e.k = "look" -> IF Open(w, e.n) THEN Service([w EXCEPT !.polls[e.n].al = 0], e.n) ELSE w
      [] e.k = "free" -> Release(w, e.n)
RECURSIVE MeetAll(_, _)
MeetAll(w, es) ==
    IF es = <<>> THEN w
    ELSE LET e == Head(es) IN MeetAll(Meet(IF e.k = "free" THEN [w EXCEPT !.ag = Tail(@)] ELSE w, e), Tail(es))
Block(w, b) ==
    LET today == SelectSeq(w.ag, LAMBDA e : e.at = b)
        now == SelectSeq(today, LAMBDA e : e.k = "do") \o SelectSeq(today, LAMBDA e : e.k # "do")
        \* places still to be given away stay in front, where Busy sees them
        v == [w EXCEPT !.blk = b, !.ag = SelectSeq(@, LAMBDA e : e.at # b \/ e.k = "free")]
    IN MeetAll(v, now)
RECURSIVE Until(_, _)
Until(w, b) ==
    IF w.ag = <<>> \/ Head(w.ag).at > b THEN [w EXCEPT !.blk = b] ELSE Until(Block(w, Head(w.ag).at), b)

-----------------------------------------------------------------------------
\* what can be done from outside
Opened(w, p) ==
    LET i == Len(w.polls) + 1 IN
    Look([w EXCEPT !.polls = Append(@, p), !.free[p.by] = @ - Fee, !.held[p.by] = @ + Fee], i, w.blk + Timeout)
MayStake(w, i, who) == Open(w, i) /\ w.polls[i].stake = 0 /\ w.free[who] >= Rules(w, w.polls[i].t).stake
Stake(w, i, who) ==
    LET n == Rules(w, w.polls[i].t).stake IN
    Service([w EXCEPT !.polls[i].stake = who, !.polls[i].put = n, !.free[who] = @ - n, !.held[who] = @ + n], i)
Voted(w, i, p) == Look([w EXCEPT !.polls[i] = p], i, w.blk + 1)
MayFee(w, i) == i \in DOMAIN w.polls /\ w.polls[i].st \in {"approved", "cancelled"} /\ w.polls[i].by # 0
FeeBack(w, i) == [GivenBack(w, w.polls[i].by, Fee) EXCEPT !.polls[i].by = 0]
MayStakeBack(w, i) == i \in DOMAIN w.polls /\ w.polls[i].st # "open" /\ w.polls[i].stake # 0
StakeBack(w, i) ==
    LET p == w.polls[i] IN [GivenBack(w, p.stake, p.put) EXCEPT !.polls[i].stake = 0, !.polls[i].put = 0]

\* how polls may change
Final == {"approved", "rejected", "timedout", "cancelled", "killed"}
\* every poll that is not over or waiting for a place is looked at again
Alive(w) == \A i \in DOMAIN w.polls : Open(w, i) => w.polls[i].inq \/ \E j \in DOMAIN w.ag : w.ag[j].k = "look" /\ w.ag[j].n = i
\* no more at once than the track allows
Places(w, t) == Busy(w, t) <= Rules(w, t).most
\* a place is not left empty while someone waits for it
NoneWaits(w, t) == (\E i \in DOMAIN w.polls : Open(w, i) /\ w.polls[i].t = t /\ w.polls[i].inq /\ \E m \in DOMAIN w.q[t + 1] : w.q[t + 1][m][1] = i)
                   => Busy(w, t) = Rules(w, t).most
\* exactly the fees and stakes of polls are held
Sum2(f, n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE f[i] + S[i - 1] IN S[n]
Held(w) == \A a \in DOMAIN w.held :
    w.held[a] = Sum2([i \in DOMAIN w.polls |-> (IF w.polls[i].by = a THEN Fee ELSE 0) + (IF w.polls[i].stake = a THEN w.polls[i].put ELSE 0)], Len(w.polls))
=============================================================================
