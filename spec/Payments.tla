------------------------------ MODULE Payments ------------------------------
(* The escrow payments of the node: what every operation does to balances,   *)
(* payments and pending refunds, and the properties C01..C10 as predicates   *)
(* on one observed step [cfg, pre, call, ok, post, ev].                      *)
(*                                                                           *)
(* cfg:  [n accounts, min (smallest balance per asset), inc (incentive, %),  *)
(*       buf (objection window, blocks), res (the resolver's account)]       *)
(* world: [blk, free, held, dust (per asset and account / asset),            *)
(*        pays (set of payments), par (set of id -> parties),                *)
(*        tasks (pending automatic refunds, in the order they were set)]     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

MaxOf(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Total(s) == SumSeq(s, 1)
SumOver(S, f(_)) == MapThenSumSet(f, S)
Pct(p, v) == (p * v) \div 100          \* rounded down

-----------------------------------------------------------------------------
(* The asset ledger: what the asset system promises the payments pallet.     *)
(* An account exists for an asset while its free balance is positive; it may *)
(* not hold less than the minimum: what is left below it is swept away.      *)
CanDeposit(c, w, a, x, v) == w.free[a][x] > 0 \/ v >= c.min[a]
Fail(w) == [ok |-> FALSE, w |-> w]
Done(w) == [ok |-> TRUE, w |-> w]

Transfer(c, w, a, from, to, v, keep) ==
    LET f == w.free[a][from]
        m == c.min[a]
        rest == f - v
        swept == IF v > 0 /\ rest < m THEN rest ELSE 0
    IN IF ~ (v = 0 \/ (f >= v /\ (rest >= m \/ ~keep))) THEN Fail(w)
       ELSE IF ~CanDeposit(c, w, a, to, v) THEN Fail(w)
       ELSE IF from = to THEN Done(w)
       ELSE Done([w EXCEPT !.free[a][from] = rest - swept, !.free[a][to] = @ + v, !.dust[a] = @ + swept])

Hold(c, w, a, x, v) ==
    IF v > MaxOf(0, w.free[a][x] - c.min[a]) THEN Fail(w)
    ELSE Done([w EXCEPT !.free[a][x] = @ - v, !.held[a][x] = @ + v])

Release(c, w, a, x, v) ==
    IF CanDeposit(c, w, a, x, v) /\ w.held[a][x] >= v
    THEN Done([w EXCEPT !.free[a][x] = @ + v, !.held[a][x] = @ - v])
    ELSE Fail(w)

TransferAndHold(c, w, a, from, to, v) ==
    IF CanDeposit(c, w, a, to, v) /\ v <= MaxOf(0, w.free[a][from] - c.min[a])
    THEN Done([w EXCEPT !.free[a][from] = @ - v, !.held[a][to] = @ + v])
    ELSE Fail(w)

-----------------------------------------------------------------------------
(* Fees: a sequence of [x account, v units, m due also in disputes]          *)
FeeSum(fees) == Total([i \in DOMAIN fees |-> fees[i].v])
DueSum(fees) == Total([i \in DOMAIN fees |-> IF fees[i].m THEN fees[i].v ELSE 0])
FeesTo(fees, x, disputed) == Total([i \in DOMAIN fees |-> IF fees[i].x = x /\ (fees[i].m \/ ~disputed) THEN fees[i].v ELSE 0])
HasFee(fees, x, m) == \E i \in DOMAIN fees : fees[i].x = x /\ fees[i].m = m

RECURSIVE ChargeFrom(_, _, _, _, _, _, _)
\* one transfer per fee account and kind; the payer of the fee has to stay alive
ChargeFrom(c, w, a, from, fees, disputed, i) ==
    LET x == (i + 1) \div 2
        m == i % 2 = 0
    IN IF i > 2 * c.n THEN Done(w)
       ELSE IF ~HasFee(fees, x, m) \/ (disputed /\ ~m) THEN ChargeFrom(c, w, a, from, fees, disputed, i + 1)
       ELSE LET v == Total([j \in DOMAIN fees |-> IF fees[j].x = x /\ fees[j].m = m THEN fees[j].v ELSE 0])
                t == Transfer(c, w, a, from, x, v, TRUE)
            IN IF t.ok THEN ChargeFrom(c, t.w, a, from, fees, disputed, i + 1) ELSE Fail(w)
Charge(c, w, a, from, fees, disputed) == ChargeFrom(c, w, a, from, fees, disputed, 1)

-----------------------------------------------------------------------------
(* Payments                                                                  *)
NoPay == [st |-> "none"]
NoPar == [id |-> 0]
PayOf(w, s, id) == IF \E p \in w.pays : p.s = s /\ p.id = id THEN CHOOSE p \in w.pays : p.s = s /\ p.id = id ELSE NoPay
ParOf(w, id) == IF \E q \in w.par : q.id = id THEN CHOOSE q \in w.par : q.id = id ELSE NoPar
Signed(k, c) == k.who \in 1 .. c.n
SenderLock(p) == FeeSum(p.sf) + p.inc

\* what a payment keeps locked on its payer and its payee
Open(p) == p.st \in {"created", "refund", "review"}
LockOn(p, x) ==
    (IF Open(p) /\ p.s = x THEN SenderLock(p) ELSE 0)
    + (IF Open(p) /\ p.b = x THEN p.amt ELSE 0)
    + (IF p.st = "review" /\ p.b = x THEN p.inc ELSE 0)
Required(w, a, x) == SumOver({p \in w.pays : p.a = a}, LAMBDA p : LockOn(p, x))

Refuse(w) == [ok |-> FALSE, w |-> w, ev |-> <<>>]
Accept(w, ev) == [ok |-> TRUE, w |-> w, ev |-> ev]
Put(w, p) == [w EXCEPT !.pays = {q \in @ : ~(q.s = p.s /\ q.id = p.id)} \cup {p}]
Stage(w, p, st) == Put(w, [p EXCEPT !.st = st, !.cb = 0])

NewPay(c, w, k, s, b, st) ==
    [s |-> s, id |-> k.nid, a |-> k.a, amt |-> k.amt, b |-> b, inc |-> Pct(c.inc, k.amt), st |-> st, cb |-> 0,
     sf |-> k.sf, bf |-> k.bf]
\* an id names one payment: only one's own unanswered request is replaced
IdFree(w, s, b, id) ==
    LET q == ParOf(w, id) IN q = NoPar \/ (q.s = s /\ q.b = b /\ PayOf(w, s, id).st = "requested")
Create(w, p) == [Put(w, p) EXCEPT !.par = {q \in @ : q.id # p.id} \cup {[id |-> p.id, s |-> p.s, b |-> p.b]}]

Pay(c, w, k) ==
    LET p == NewPay(c, w, k, k.who, k.b, "created")
        w1 == Create(w, p)
        h == Hold(c, w1, k.a, p.s, SenderLock(p))
        t == TransferAndHold(c, h.w, k.a, p.s, p.b, p.amt)
    IN IF ~Signed(k, c) \/ k.nid = 0 \/ ~IdFree(w, k.who, k.b, k.nid) THEN Refuse(w)
       ELSE IF ~h.ok \/ ~t.ok THEN Refuse(w)
       ELSE Accept(t.w, <<[k |-> "created", id |-> p.id, a |-> p.a, amt |-> p.amt, rem |-> k.rem]>>)

Request(c, w, k) ==
    IF ~Signed(k, c) \/ k.nid = 0 \/ ~IdFree(w, k.s, k.who, k.nid) THEN Refuse(w)
    ELSE Accept(Create(w, NewPay(c, w, k, k.s, k.who, "requested")), <<[k |-> "requested", id |-> k.nid]>>)

ReleasePay(c, w, k) ==
    LET p == PayOf(w, k.who, k.id) IN
    IF ~Signed(k, c) \/ p.st # "created" THEN Refuse(w)
    ELSE LET r1 == Release(c, w, p.a, p.s, SenderLock(p))
             r2 == Release(c, r1.w, p.a, p.b, p.amt)
             f1 == Charge(c, r2.w, p.a, p.s, p.sf, FALSE)
             f2 == Charge(c, f1.w, p.a, p.b, p.bf, FALSE)
         IN IF ~r1.ok \/ ~r2.ok \/ ~f1.ok \/ ~f2.ok THEN Refuse(w)
            ELSE Accept(Stage(f2.w, p, "finished"), <<[k |-> "released", id |-> k.id]>>)

AcceptPay(c, w, k) ==
    LET p == PayOf(w, k.who, k.id) IN
    IF ~Signed(k, c) \/ p.st # "requested" THEN Refuse(w)
    ELSE LET f1 == Charge(c, w, p.a, p.s, p.sf, FALSE)
             t == Transfer(c, f1.w, p.a, p.s, p.b, p.amt, FALSE)
             f2 == Charge(c, t.w, p.a, p.b, p.bf, FALSE)
         IN IF ~f1.ok \/ ~t.ok \/ ~f2.ok THEN Refuse(w)
            ELSE Accept(Stage(f2.w, p, "finished"), <<[k |-> "completed", id |-> k.id]>>)

AskRefund(c, w, k) ==
    LET p == PayOf(w, k.who, k.id)
        at == w.blk + c.buf
    IN IF ~Signed(k, c) \/ p.st # "created" \/ at <= w.blk THEN Refuse(w)
       ELSE Accept([Put(w, [p EXCEPT !.st = "refund", !.cb = at]) EXCEPT !.tasks = Append(@, [id |-> k.id, at |-> at, who |-> p.b])],
                   <<[k |-> "refundreq", id |-> k.id, at |-> at]>>)

Without(tasks, id) == SelectSeq(tasks, LAMBDA t : t.id # id)

Cancel(c, w, k) ==
    LET q == ParOf(w, k.id)
        p == IF q = NoPar THEN NoPay ELSE PayOf(w, q.s, k.id)
    IN IF ~Signed(k, c) \/ p.st \notin {"created", "refund"} THEN Refuse(w)
       ELSE IF q.b # k.who THEN Refuse(w)
       ELSE LET r1 == Release(c, w, p.a, p.s, SenderLock(p))
                r2 == Release(c, r1.w, p.a, p.b, p.amt)
                t == Transfer(c, r2.w, p.a, p.b, p.s, p.amt, FALSE)
            IN IF ~r1.ok \/ ~r2.ok \/ ~t.ok THEN Refuse(w)
               ELSE Accept([t.w EXCEPT !.pays = @ \ {p}, !.par = @ \ {q}, !.tasks = Without(@, k.id)],
                           <<[k |-> IF p.st = "created" THEN "cancelled" ELSE "refunded", id |-> k.id]>>)

Dispute(c, w, k) ==
    LET q == ParOf(w, k.id)
        p == IF q = NoPar THEN NoPay ELSE PayOf(w, q.s, k.id)
    IN IF ~Signed(k, c) \/ p.st # "refund" THEN Refuse(w)
       ELSE IF q.b # k.who \/ p.cb <= w.blk THEN Refuse(w)
       ELSE LET h == Hold(c, w, p.a, p.b, p.inc)
            IN IF ~h.ok THEN Refuse(w)
               ELSE Accept([Stage(h.w, p, "review") EXCEPT !.tasks = Without(@, k.id)], <<[k |-> "disputed", id |-> k.id]>>)

Resolve(c, w, k) ==
    LET q == ParOf(w, k.id)
        p == IF q = NoPar THEN NoPay ELSE PayOf(w, q.s, k.id)
    IN IF k.who # c.res \/ p.st # "review" THEN Refuse(w)
       ELSE LET r1 == Release(c, w, p.a, p.s, SenderLock(p))
                r2 == Release(c, r1.w, p.a, p.b, p.amt + p.inc)
                f1 == Charge(c, r2.w, p.a, p.s, p.sf, TRUE)
                f2 == Charge(c, f1.w, p.a, p.b, p.bf, TRUE)
                share == Pct(k.pct, p.amt)
                back == IF k.fav = "s" THEN share ELSE p.amt - share
                loser == IF k.fav = "s" THEN p.b ELSE p.s
                t1 == Transfer(c, f2.w, p.a, loser, c.res, p.inc, FALSE)
                t2 == Transfer(c, t1.w, p.a, p.b, p.s, back, FALSE)
            IN IF ~r1.ok \/ ~r2.ok \/ ~f1.ok \/ ~f2.ok \/ ~t1.ok \/ ~t2.ok THEN Refuse(w)
               ELSE Accept(Stage(t2.w, p, "finished"), <<[k |-> "resolved", id |-> k.id]>>)

RECURSIVE RunTasks(_, _, _, _)
RunTasks(c, w, due, ev) ==
    IF due = <<>> THEN [ok |-> TRUE, w |-> w, ev |-> ev]
    ELSE LET r == Cancel(c, w, [who |-> due[1].who, id |-> due[1].id])
         IN RunTasks(c, r.w, Tail(due), ev \o r.ev)
\* the objections that end with block n, oldest request first
Due(w, n) ==
    LET D == {p \in w.pays : p.st = "refund" /\ p.cb = n}
        known == SelectSeq(w.tasks, LAMBDA t : t.at = n /\ \E p \in D : p.id = t.id /\ p.b = t.who)
        rest == {p \in D : \A i \in DOMAIN known : known[i].id # p.id}
        RECURSIVE seq(_)
        seq(S) == IF S = {} THEN <<>>
                  ELSE LET p == CHOOSE p \in S : \A q \in S : p.id <= q.id IN <<[id |-> p.id, at |-> n, who |-> p.b]>> \o seq(S \ {p})
    IN known \o seq(rest)
NextBlock(c, w) ==
    LET n == w.blk + 1
    IN RunTasks(c, [w EXCEPT !.blk = n, !.tasks = SelectSeq(@, LAMBDA t : t.at # n)], Due(w, n), <<>>)

Move(c, w, k) ==
    LET t == Transfer(c, w, k.a, k.who, k.to, k.amt, FALSE)
    IN IF t.ok THEN Accept(t.w, <<>>) ELSE Refuse(w)

Apply(c, w, k) ==
    CASE k.op = "pay" -> Pay(c, w, k)
      [] k.op = "req" -> Request(c, w, k)
      [] k.op = "rel" -> ReleasePay(c, w, k)
      [] k.op = "acc" -> AcceptPay(c, w, k)
      [] k.op = "rfd" -> AskRefund(c, w, k)
      [] k.op = "can" -> Cancel(c, w, k)
      [] k.op = "dis" -> Dispute(c, w, k)
      [] k.op = "rsv" -> Resolve(c, w, k)
      [] k.op = "next" -> NextBlock(c, w)
      [] k.op = "move" -> Move(c, w, k)

-----------------------------------------------------------------------------
(* The properties, on one step r                                             *)
Assets(r) == DOMAIN r.cfg.min
Accounts(r) == 1 .. r.cfg.n
Ledger(w) == [free |-> w.free, held |-> w.held, dust |-> w.dust]
Same(v, w) == Ledger(v) = Ledger(w) /\ v.pays = w.pays /\ v.par = w.par /\ v.tasks = w.tasks /\ v.blk = w.blk
AllOf(w, a) == Total(w.free[a]) + Total(w.held[a]) + w.dust[a]
ById == {"rel", "acc", "rfd", "can", "dis", "rsv"}
Byname(r) ==   \* the payment a call by id is about (before the call)
    LET q == ParOf(r.pre, r.call.id)
    IN IF r.call.op \in {"rel", "acc", "rfd"} THEN PayOf(r.pre, r.call.who, r.call.id)
       ELSE IF q = NoPar THEN NoPay ELSE PayOf(r.pre, q.s, r.call.id)
ChangeF(r, a, x) == r.post.free[a][x] - r.pre.free[a][x]
ChangeH(r, a, x) == r.post.held[a][x] - r.pre.held[a][x]
At(x, y, v) == IF x = y THEN v ELSE 0

C01(r) ==
    /\ \A a \in Assets(r) : AllOf(r.post, a) = AllOf(r.pre, a)
    /\ ~r.ok => Same(r.pre, r.post)

C02(r) == \A a \in Assets(r), x \in Accounts(r) : r.post.held[a][x] = Required(r.post, a, x)

\* which stage an operation starts from and leads to
Moves == [rel |-> {<<"created", "finished">>}, acc |-> {<<"requested", "finished">>}, rfd |-> {<<"created", "refund">>},
          can |-> {<<"created", "none">>, <<"refund", "none">>}, dis |-> {<<"refund", "review">>}, rsv |-> {<<"review", "finished">>}]
Terms(p) == [p EXCEPT !.st = "", !.cb = 0]
C03(r) ==
    /\ Apply(r.cfg, r.pre, r.call).ok => r.ok
    /\ \A p \in r.pre.pays :
         LET q == PayOf(r.post, p.s, p.id) IN
         \/ q = p
         \/ /\ r.ok /\ r.call.op \in ById /\ p = Byname(r)
            /\ <<p.st, q.st>> \in Moves[r.call.op]
            /\ q # NoPay => Terms(q) = Terms(p)
         \/ /\ r.call.op = "next" /\ p.st = "refund" /\ q = NoPay
         \/ /\ r.ok /\ r.call.op \in {"pay", "req"} /\ p.st = "requested" /\ p.id = r.call.nid
            /\ q.st = (IF r.call.op = "pay" THEN "created" ELSE "requested")
    /\ \A q \in r.post.pays : PayOf(r.pre, q.s, q.id) = NoPay =>
         /\ r.ok /\ r.call.op \in {"pay", "req"} /\ q.id = r.call.nid
         /\ q.st = (IF r.call.op = "pay" THEN "created" ELSE "requested")
    /\ (r.ok /\ r.call.op \in ById) =>
         LET p == Byname(r) IN p # NoPay /\ <<p.st, PayOf(r.post, p.s, p.id).st>> \in Moves[r.call.op]
    /\ (r.ok /\ r.call.op \in {"pay", "req"}) =>
         LET k == r.call
             s == IF k.op = "pay" THEN k.who ELSE k.s
             b == IF k.op = "pay" THEN k.b ELSE k.who
         IN PayOf(r.post, s, k.nid) = NewPay(r.cfg, r.pre, k, s, b, IF k.op = "pay" THEN "created" ELSE "requested")

Entitled(r) ==
    LET k == r.call
        q == ParOf(r.pre, k.id)
    IN CASE k.op \in {"rel", "acc", "rfd"} -> q # NoPar /\ Signed(k, r.cfg) /\ q.s = k.who
         [] k.op \in {"can", "dis"} -> q # NoPar /\ Signed(k, r.cfg) /\ q.b = k.who
         [] k.op = "rsv" -> k.who = r.cfg.res
C04(r) ==
    /\ r.call.op \in ById => (r.ok => Entitled(r)) /\ (~Entitled(r) => Same(r.pre, r.post))
    /\ r.call.op \in {"pay", "req"} =>
         /\ ~Signed(r.call, r.cfg) => ~r.ok
         /\ r.ok => \E p \in r.post.pays : p.id = r.call.nid /\ (IF r.call.op = "pay" THEN p.s ELSE p.b) = r.call.who
         \* nobody but the one who pays loses anything, and asking costs nobody anything
         /\ \A a \in Assets(r), x \in Accounts(r) :
              (r.call.op = "req" \/ x # r.call.who) => ChangeF(r, a, x) >= 0 /\ ChangeH(r, a, x) >= 0

\* the balances are as the formula says; when dust was swept, as the ledger rules say
Books(r, a, f(_), h(_)) ==
    IF r.post.dust = r.pre.dust
    THEN /\ \A x \in Accounts(r) : ChangeF(r, a, x) = f(x) /\ ChangeH(r, a, x) = h(x)
         /\ \A o \in Assets(r) \ {a} : r.post.free[o] = r.pre.free[o] /\ r.post.held[o] = r.pre.held[o]
    ELSE Ledger(r.post) = Ledger(Apply(r.cfg, r.pre, r.call).w)

C05(r) ==
    r.ok =>
    CASE r.call.op = "rel" ->
           LET p == Byname(r) IN
           p # NoPay /\ Books(r, p.a, LAMBDA x : At(x, p.s, p.inc) + At(x, p.b, p.amt - FeeSum(p.bf)) + FeesTo(p.sf, x, FALSE) + FeesTo(p.bf, x, FALSE),
                    LAMBDA x : - At(x, p.s, SenderLock(p)) - At(x, p.b, p.amt))
      [] r.call.op = "acc" ->
           LET p == Byname(r) IN
           p # NoPay /\ Books(r, p.a, LAMBDA x : - At(x, p.s, p.amt + FeeSum(p.sf)) + At(x, p.b, p.amt - FeeSum(p.bf))
                               + FeesTo(p.sf, x, FALSE) + FeesTo(p.bf, x, FALSE),
                    LAMBDA x : 0)
      [] OTHER -> TRUE

Gone(r) == {p \in r.pre.pays : PayOf(r.post, p.s, p.id) = NoPay}
C06(r) ==
    /\ (r.ok /\ r.call.op = "can") =>
         LET p == Byname(r) IN
         /\ p # NoPay /\ PayOf(r.post, p.s, p.id) = NoPay /\ ParOf(r.post, p.id) = NoPar
         /\ Books(r, p.a, LAMBDA x : At(x, p.s, SenderLock(p) + p.amt), LAMBDA x : - At(x, p.s, SenderLock(p)) - At(x, p.b, p.amt))
    /\ r.call.op = "next" =>
         /\ \A p \in Gone(r) : ParOf(r.post, p.id) = NoPar
         /\ IF r.post.dust = r.pre.dust
            THEN \A a \in Assets(r), x \in Accounts(r) :
                   LET G == {p \in Gone(r) : p.a = a} IN
                   /\ ChangeF(r, a, x) = SumOver(G, LAMBDA p : At(x, p.s, SenderLock(p) + p.amt))
                   /\ ChangeH(r, a, x) = SumOver(G, LAMBDA p : - At(x, p.s, SenderLock(p)) - At(x, p.b, p.amt))
            ELSE Ledger(r.post) = Ledger(Apply(r.cfg, r.pre, r.call).w)
    \* paying takes exactly what cancelling returns
    /\ (r.ok /\ r.call.op = "pay") =>
         LET p == PayOf(r.post, r.call.who, r.call.nid) IN
         p # NoPay /\ Books(r, p.a, LAMBDA x : - At(x, p.s, SenderLock(p) + p.amt), LAMBDA x : At(x, p.s, SenderLock(p)) + At(x, p.b, p.amt))

C07(r) ==
    /\ r.call.op = "next" =>
         LET due == {p \in r.pre.pays : p.st = "refund" /\ p.cb = r.post.blk}
             exp == Apply(r.cfg, r.pre, r.call).w
         IN /\ r.post.blk = r.pre.blk + 1
            /\ Gone(r) \subseteq due
            /\ \A p \in due : PayOf(exp, p.s, p.id) = NoPay => PayOf(r.post, p.s, p.id) = NoPay
            /\ \A p \in r.pre.pays \ due : PayOf(r.post, p.s, p.id) = p
    /\ (r.call.op = "rfd" /\ r.ok) =>
         LET p == PayOf(r.post, r.call.who, r.call.id) IN p.st = "refund" /\ p.cb = r.pre.blk + r.cfg.buf
    /\ r.call.op = "dis" =>
         LET p == Byname(r) IN
         /\ r.ok => p.st = "refund" /\ r.pre.blk < p.cb
         /\ Apply(r.cfg, r.pre, r.call).ok => r.ok
    /\ (r.call.op = "rfd" /\ Apply(r.cfg, r.pre, r.call).ok) => r.ok

C08(r) ==
    (r.ok /\ r.call.op = "rsv") =>
    LET p == Byname(r)
        share == Pct(r.call.pct, p.amt)
        toS == IF r.call.fav = "s" THEN share ELSE p.amt - share
        loser == IF r.call.fav = "s" THEN p.b ELSE p.s
    IN /\ p # NoPay
       /\ Books(r, p.a,
            LAMBDA x : At(x, p.s, SenderLock(p) - DueSum(p.sf) + toS) + At(x, p.b, p.inc + p.amt - DueSum(p.bf) - toS)
                       + FeesTo(p.sf, x, TRUE) + FeesTo(p.bf, x, TRUE) + At(x, r.cfg.res, p.inc) - At(x, loser, p.inc),
            LAMBDA x : - At(x, p.s, SenderLock(p)) - At(x, p.b, p.amt + p.inc))

Named(w) ==
    /\ \A p \in w.pays : ParOf(w, p.id) # NoPar /\ ParOf(w, p.id).s = p.s /\ ParOf(w, p.id).b = p.b
    /\ \A q \in w.par : PayOf(w, q.s, q.id) # NoPay
    /\ \A p, q \in w.pays : p.id = q.id => p = q
C09(r) ==
    /\ Named(r.post)
    /\ r.call.op \in {"pay", "req"} =>
         LET k == r.call
             s == IF k.op = "pay" THEN k.who ELSE k.s
             b == IF k.op = "pay" THEN k.b ELSE k.who
         IN /\ (r.ok /\ k.nid > 0) => IdFree(r.pre, s, b, k.nid)
            /\ k.nid = 0 => ~r.ok
            /\ \A p \in r.pre.pays : p.id # k.nid => p \in r.post.pays
            /\ r.ok => ParOf(r.post, k.nid) = [id |-> k.nid, s |-> s, b |-> b]

Announced(r) ==
    LET k == r.call IN
    CASE k.op = "pay" -> <<[k |-> "created", id |-> k.nid, a |-> k.a, amt |-> k.amt, rem |-> k.rem]>>
      [] k.op = "req" -> <<[k |-> "requested", id |-> k.nid]>>
      [] k.op = "rel" -> <<[k |-> "released", id |-> k.id]>>
      [] k.op = "acc" -> <<[k |-> "completed", id |-> k.id]>>
      [] k.op = "rfd" -> <<[k |-> "refundreq", id |-> k.id, at |-> PayOf(r.post, k.who, k.id).cb]>>
      [] k.op = "can" -> <<[k |-> IF Byname(r).st = "refund" THEN "refunded" ELSE "cancelled", id |-> k.id]>>
      [] k.op = "dis" -> <<[k |-> "disputed", id |-> k.id]>>
      [] k.op = "rsv" -> <<[k |-> "resolved", id |-> k.id]>>
      [] OTHER -> <<>>
C10(r) ==
    IF r.call.op = "next"
    THEN /\ Len(r.ev) = Cardinality(Gone(r))
         /\ {r.ev[i] : i \in DOMAIN r.ev} = {[k |-> "refunded", id |-> p.id] : p \in Gone(r)}
    ELSE IF r.ok THEN r.ev = Announced(r)
    ELSE r.ev = <<>>

PropsNames == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"}
Prop(p, r) ==
    CASE p = "C01" -> C01(r) [] p = "C02" -> C02(r) [] p = "C03" -> C03(r) [] p = "C04" -> C04(r) [] p = "C05" -> C05(r)
      [] p = "C06" -> C06(r) [] p = "C07" -> C07(r) [] p = "C08" -> C08(r) [] p = "C09" -> C09(r) [] p = "C10" -> C10(r)
=============================================================================
