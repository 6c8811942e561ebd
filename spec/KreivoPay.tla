----------------------------- MODULE KreivoPay -----------------------------
(* Payments under the policy of the kreivo runtime: the escrow machine of    *)
(* Payments.tla with fees, incentive, refund window and resolver fixed by    *)
(* the runtime, and the kinds of account that decide who pays a fee.         *)
(*                                                                           *)
(* cfg: [acct (accounts as bytes; calls and worlds use their number), min,   *)
(*       res (number of the treasury's account)]                             *)
(* callers: an account's number; 0 nobody; 99 root; 100 + i the community    *)
(* itself (as an authority) whose account has number i                       *)
EXTENDS Payments, KreivoAccounts

PayerPct == 1
PayeePct == 3
Full(c) == [acct |-> c.acct, min |-> c.min, res |-> c.res, n |-> Len(c.acct), inc |-> 10, buf |-> 14400]

\* 1% of the payer, 3% of the payee, at least the least balance, due in disputes; communities are exempt
PolicyFee(c, a, x, pct, amt) ==
    IF IsCommunity(c.acct[x]) THEN <<>> ELSE <<[x |-> c.res, v |-> MaxOf(c.min[a], Pct(pct, amt)), m |-> TRUE]>>

\* who acts: authorities count as the account they stand for, where they may act at all
Actor(c, k) ==
    IF "who" \notin DOMAIN k THEN 0
    ELSE IF k.op = "rsv" THEN (IF k.who = 99 THEN c.res ELSE 0)
    ELSE IF k.who > 100 THEN (IF k.op \in {"pay", "rel", "rfd", "acc"} THEN k.who - 100 ELSE 0)
    ELSE k.who

Plain(c, w, k) ==
    LET x == Actor(c, k)
        new == k.op \in {"pay", "req"}
        payer == IF k.op = "pay" THEN x ELSE k.s
        payee == IF k.op = "pay" THEN k.b ELSE x
        fees(y, pct) == IF y \in DOMAIN c.acct THEN PolicyFee(c, k.a, y, pct, k.amt) ELSE <<>>
    IN IF new
       THEN [op |-> k.op, who |-> x, b |-> payee, s |-> payer, a |-> k.a, amt |-> k.amt, rem |-> <<>>, nid |-> w.n + 1,
             sf |-> fees(payer, PayerPct), bf |-> fees(payee, PayeePct)]
       ELSE [op |-> k.op, who |-> x, id |-> IF "id" \in DOMAIN k THEN k.id ELSE 0,
             pct |-> IF "pct" \in DOMAIN k THEN k.pct ELSE 0, fav |-> IF "fav" \in DOMAIN k THEN k.fav ELSE "s"]

KApply(c, w, k) ==
    IF k.op = "skip" THEN [ok |-> TRUE, w |-> [w EXCEPT !.blk = @ + k.n], ev |-> <<>>]
    ELSE LET r == Apply(Full(c), w, Plain(c, w, k))
         IN IF r.ok /\ k.op \in {"pay", "req"} THEN [r EXCEPT !.w.n = @ + 1] ELSE r

-----------------------------------------------------------------------------
PlainStep(r) == [cfg |-> Full(r.cfg), pre |-> r.pre, call |-> Plain(r.cfg, r.pre, r.call), ok |-> r.ok, post |-> r.post]

C25(r) ==
    LET s == PlainStep(r) IN
    (r.ok /\ r.call.op # "skip") =>
    /\ r.call.op \in {"pay", "req"} =>
         LET p == PayOf(r.post, s.call.s, s.call.nid) IN p # NoPay /\ p.sf = s.call.sf /\ p.bf = s.call.bf
    /\ C05(s) /\ C08(s)

\* the whole step is the one the specification takes
Conforms(r) == LET e == KApply(r.cfg, r.pre, r.call) IN r.ok = e.ok /\ r.post = e.w
KProp(p, r) == CASE p = "C25" -> C25(r) [] p = "ALL" -> Conforms(r)
=============================================================================
