---------------------------- MODULE KreivoLogin ----------------------------
(* Accounts opened and used with devices. A device shows something it was    *)
(* challenged with (ch: the height whose block hash it is, negative when it  *)
(* is no block's hash) and says which block that was (cx).                   *)
(*                                                                           *)
(* world: [blk, dev: set of [u, d] (user, device), key: set of [k, u, t]     *)
(*         (a session key, its user, the block it expires at)]               *)
EXTENDS Integers, Sequences, FiniteSets

Window == 3            \* finished blocks whose hash is still good
Longest == 75          \* fifteen minutes

Recent(w) == {n \in w.blk - Window .. w.blk - 1 : n >= 0}
Good(w, k) == k.au /\ k.cx \in Recent(w) /\ k.ch = k.cx
Registered(w, u) == \E x \in w.dev : x.u = u
Device(w, k) == [u |-> k.u, d |-> k.d] \in w.dev
Session(w, key) == LET s == {x \in w.key : x.k = key} IN IF s = {} THEN <<>> ELSE CHOOSE x \in s : TRUE
Nobody == -1
MinOf(a, b) == IF a <= b THEN a ELSE b

Yes(w, u) == [ok |-> TRUE, w |-> w, as |-> u]
No(w) == [ok |-> FALSE, w |-> w, as |-> Nobody]
LApply(w, k) ==
    CASE k.op = "next" -> Yes([w EXCEPT !.blk = @ + k.n], Nobody)
      [] k.op = "reg" ->
           IF ~Good(w, k) \/ Registered(w, k.u) THEN No(w)
           ELSE Yes([w EXCEPT !.dev = @ \cup {[u |-> k.u, d |-> k.d]}], Nobody)
      [] k.op = "auth" ->
           IF ~Good(w, k) \/ ~Device(w, k) THEN No(w)
           ELSE LET t == w.blk + MinOf(IF "dur" \in DOMAIN k THEN k.dur ELSE Longest, Longest)
                IN Yes([w EXCEPT !.key = {x \in @ : x.k # k.k} \cup {[k |-> k.k, u |-> k.u, t |-> t]}], Nobody)
      [] k.op = "disp" -> IF ~Good(w, k) \/ ~Device(w, k) THEN No(w) ELSE Yes(w, k.u)
      [] k.op = "sess" -> LET s == Session(w, k.k) IN IF s = <<>> THEN No(w) ELSE IF s.t <= w.blk THEN No(w) ELSE Yes(w, s.u)

-----------------------------------------------------------------------------
\* accepted exactly with the hash of one of the last finished blocks, and then acting as that user
C29(r) ==
    LET k == r.call IN
    /\ (k.op \in {"reg", "auth", "disp"} /\ ~Good(r.pre, k)) => (~r.ok /\ r.post = r.pre /\ r.as = Nobody)
    /\ r.ok = LApply(r.pre, k).ok /\ r.as = LApply(r.pre, k).as
    /\ r.post = LApply(r.pre, k).w
=============================================================================
