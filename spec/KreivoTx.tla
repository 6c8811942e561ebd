------------------------------ MODULE KreivoTx ------------------------------
(* Signed transactions: when the chain takes them, what they leave behind    *)
(* and who pays for them.                                                    *)
(* Accounts: 1 and 2 are ordinary, 3 is a key, 4 is the account of a user's  *)
(*   device, 5 does not exist; 2 and 4 have a membership with gas each.      *)
(* world: [blk, used: room normal transactions have taken in this block,     *)
(*   nonce, nat, ast: per account, its next number, money and asset,         *)
(*   tre: treasury's money, aut: author's asset, gas: left per membership,   *)
(*   key: per account, the block until which it acts for account 4]          *)
(* a transaction: [by, no: its number, sig: how it is signed, gen, spec, txv:*)
(*   whether it was meant for this chain and these versions of it,           *)
(*   era: none or <<period, born>>, tip, in: 0 money or 1 asset, call]       *)
(* x: [fee, w: weight of the call, base: of any transaction, ed]             *)
EXTENDS Wide

\* three quarters of two seconds
Most == <<1396, 1056413696>>
Window == 3
Longest == 75
User == 4
MinOf(a, b) == IF a <= b THEN a ELSE b

Lives(w, k) == k.era = <<>> \/ (k.era[2] < w.blk /\ w.blk < k.era[2] + k.era[1])
AsSigned(w, k) == k.sig = "good" /\ k.gen /\ k.spec /\ k.txv /\ Lives(w, k)
\* logging in with what a device shows of one of the last blocks costs nothing and has no number
Free(w, k) == k.call.what = "login" /\ k.call.cx < w.blk /\ k.call.cx >= w.blk - Window
Next1(w, k) == w.nat[k.by] # W0 /\ k.no = w.nonce[k.by]
Takes(x) == WAdd(x.base, x.w)
Room(w, x) == WLeq(WAdd(w.used, Takes(x)), Most)

\* who pays, and from which tank
Acts(w, a) == w.key[a] > w.blk
Payer(w, k) == IF Acts(w, k.by) THEN User ELSE k.by
TankOf(a) == IF a = 2 THEN 1 ELSE IF a = User THEN 2 ELSE 0
ByGas(w, k, x) == LET t == TankOf(Payer(w, k)) IN t # 0 /\ WLeq(x.w, w.gas[IF t = 0 THEN 1 ELSE t])
ByMoney(w, k, x) == WLeq(WAdd(x.fee, x.ed), (IF k.in = 0 THEN w.nat ELSE w.ast)[Payer(w, k)])
Paid(w, k, x) ==
    LET p == Payer(w, k) IN
    IF Free(w, k) THEN w
    ELSE IF ByGas(w, k, x) THEN [w EXCEPT !.gas[TankOf(p)] = WSub(@, x.w)]
    ELSE IF k.in = 0 THEN [w EXCEPT !.nat[p] = WSub(@, x.fee), !.tre = WAdd(@, x.fee)]
    ELSE [w EXCEPT !.ast[p] = WSub(@, x.fee), !.aut = WAdd(@, x.fee)]

Taken(w, k, x) ==
    /\ AsSigned(w, k) /\ Room(w, x)
    /\ Free(w, k) \/ (Next1(w, k) /\ (ByGas(w, k, x) \/ ByMoney(w, k, x)))

\* the call itself, after it was paid for
Give(w, a, c, x) ==
    IF WLeq(WAdd(c.n, x.ed), w.nat[a])
    THEN [done |-> TRUE, w |-> LET v == [w EXCEPT !.nat[a] = WSub(@, c.n)] IN [v EXCEPT !.nat[c.to] = WAdd(@, c.n)]]
    ELSE [done |-> FALSE, w |-> w]
Deed(w, k, x) ==
    CASE k.call.what = "give" -> Give(w, k.by, k.call, x)
      [] k.call.what = "act" -> IF Acts(w, k.by) THEN Give(w, User, k.call, x) ELSE [done |-> FALSE, w |-> w]
      [] k.call.what = "login" ->
           IF Free(w, k) THEN [done |-> TRUE, w |-> [w EXCEPT !.key[k.by] = w.blk + MinOf(k.call.dur, Longest)]]
           ELSE [done |-> FALSE, w |-> w]
Effect(w, k, x) ==
    LET v == [Paid(w, k, x) EXCEPT !.used = WAdd(@, Takes(x)), !.nonce[k.by] = IF Free(w, k) THEN @ ELSE @ + 1]
    IN Deed(v, k, x)

TApply(w, k, x) ==
    CASE k.op = "wait" -> [taken |-> TRUE, done |-> TRUE, w |-> [w EXCEPT !.blk = @ + k.n, !.used = W0]]
      [] k.op = "fill" -> [taken |-> TRUE, done |-> TRUE, w |-> [w EXCEPT !.used = x.to]]
      [] k.op = "tx" -> IF ~Taken(w, k, x) THEN [taken |-> FALSE, done |-> FALSE, w |-> w]
                        ELSE LET e == Effect(w, k, x) IN [taken |-> TRUE, done |-> e.done, w |-> e.w]

-----------------------------------------------------------------------------
(* r: [call, x, taken, done, pre, post] *)
Money(w) == <<w.nat, w.ast, w.tre, w.aut, w.gas>>
Rest(w) == <<w.blk, w.used, w.nonce, w.key>>
\* taken exactly when signed for just this, here and now, with the next number; and then once
C42(r) ==
    LET e == TApply(r.pre, r.call, r.x) IN
    /\ r.taken = e.taken /\ r.done = e.done
    /\ ~r.taken => r.post = r.pre
    /\ Rest(r.post) = Rest(e.w)
\* whoever is acted for pays, from a membership's gas first
C43(r) ==
    IF r.call.op # "tx" THEN Money(r.post) = Money(r.pre)
    ELSE IF ~r.taken THEN Money(r.post) = Money(r.pre)
    ELSE /\ Free(r.pre, r.call) \/ ByGas(r.pre, r.call, r.x) \/ ByMoney(r.pre, r.call, r.x)
         /\ LET e == Effect(r.pre, r.call, r.x) IN Money(r.post) = Money(e.w) /\ r.done = e.done
=============================================================================
