----------------------------- MODULE KreivoFees -----------------------------
(* What a transaction costs, who pays it and who gets it.                    *)
(* world: <<native, asset 1, asset 2>>, each [payers: seq, treasury, author, *)
(*   total issued], all amounts wide                                         *)
(* cfg: [min: per asset, its minimum in existential deposits or 0 if fees    *)
(*   are not taken in it, author: whether the block has one]                 *)
(* pr: [ed, cent, base: time of the smallest transaction, flat: fee of any   *)
(*   transaction, length, weighed: fees of its length and of what it took,   *)
(*   first: fee of what it might have taken]                                 *)
EXTENDS Tally

----------------------------------------------------------------------------
(* prices *)
\* y is x * p / q, give or take the precision of the coefficient
Slack(x) == N(2 + 2 * (x[1] + 1))
AtLeast(y, x, p, q) == DLeq(Prod(x, p), Prod(WAdd(y, Slack(x)), q))
AtMost(y, x, p, q) == DLeq(Prod(IF WLeq(Slack(x), y) THEN WSub(y, Slack(x)) ELSE W0, q), Prod(x, p))
\* a hundredth of a cent for the time of the smallest transaction, a cent for ten thousand bytes of
\* proof, and of the two what is more
Weighed(fee, w, pr) ==
    LET q == WMul(100, pr.base) IN
    /\ AtLeast(fee, w.t, pr.cent, q) /\ AtLeast(fee, w.p, pr.cent, N(10000))
    /\ AtMost(fee, w.t, pr.cent, q) \/ AtMost(fee, w.p, pr.cent, N(10000))
\* ten thousandths of a cent for a byte
Lengthy(fee, n, pr) == fee = WMul(n, N(10 * (pr.cent[2] \div 1000)))
Taken(k) == IF "took" \in DOMAIN k THEN [t |-> WMin(k.took.t, k.w.t), p |-> WMin(k.took.p, k.w.p)] ELSE k.w
Priced(k, pr) ==
    /\ Weighed(pr.flat, [t |-> pr.base, p |-> W0], pr)
    /\ Lengthy(pr.length, k.n, pr)
    /\ Weighed(pr.weighed, Taken(k), pr)
    /\ k.op = "tx" => Weighed(pr.first, k.w, pr)

----------------------------------------------------------------------------
(* paying *)
Sure(k, pr) == WAdd(WAdd(pr.flat, pr.length), k.tip)
First(k, pr) == WAdd(Sure(k, pr), pr.first)
\* what remains due in the end: the unused part is given back, a free call costs its tip
Due(k, pr) == IF "free" \in DOMAIN k THEN k.tip ELSE WAdd(Sure(k, pr), pr.weighed)
\* in units of the asset it is paid in
In(cfg, a, x) == IF a = 0 THEN x ELSE WMul(cfg.min[a], x)
Minimum(cfg, a, pr) == In(cfg, a, pr.ed)
Pays(cfg, w, k, pr) ==
    /\ k.in # 0 => cfg.min[k.in] > 0
    \* the account survives it
    /\ First(k, pr) # W0 => WLeq(WAdd(In(cfg, k.in, First(k, pr)), Minimum(cfg, k.in, pr)), w[k.in + 1].payers[k.by])
FApply(cfg, w, k, pr) ==
    IF k.op = "price" \/ ~Pays(cfg, w, k, pr) THEN w
    ELSE LET a == k.in + 1
             due == In(cfg, k.in, Due(k, pr))
             v == [w EXCEPT ![a].payers[k.by] = WSub(@, due)] IN
         IF k.in = 0 THEN [v EXCEPT ![1].treasury = WAdd(@, due)]
         \* to the author, if there is one who can hold that little; otherwise it is gone
         ELSE IF cfg.author /\ WLeq(Minimum(cfg, k.in, pr), WAdd(w[a].author, due))
              THEN [v EXCEPT ![a].author = WAdd(@, due)]
              ELSE [v EXCEPT ![a].total = WSub(@, due)]

\* r: [cfg, call, ok, paid, pr, pre, post]
C39(r) ==
    /\ r.ok /\ Priced(r.call, r.pr)
    /\ r.call.op = "tx" => r.paid = Pays(r.cfg, r.pre, r.call, r.pr)
    /\ r.post = FApply(r.cfg, r.pre, r.call, r.pr)
=============================================================================
