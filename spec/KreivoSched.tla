---------------------------- MODULE KreivoSched ----------------------------
(* The agenda: tasks put on it by an authority, which that authority and     *)
(* root can take off again. cfg.who lists the authorities; calls and worlds  *)
(* use their number.                                                         *)
(* world: [blk, tasks: set of [n (name), o, at, i (place in its block)]]     *)
EXTENDS KreivoOrigins, FiniteSets

IsRoot(c, o) == c.who[o] = Root
Compare(c, o, p) == IF o = p THEN "equal" ELSE IF IsRoot(c, o) THEN "greater" ELSE "none"
MayUndo(c, o, t) == o = t.o \/ IsRoot(c, o)
Named(w, n) == {t \in w.tasks : t.n = n}
\* after the last one still there, as the ends of a block's list are cut off
Place(w, at) == LET is == {t.i : t \in {x \in w.tasks : x.at = at}} IN
    IF is = {} THEN 0 ELSE 1 + CHOOSE i \in is : \A j \in is : j <= i

Yes(w) == [ok |-> TRUE, w |-> w]
No(w) == [ok |-> FALSE, w |-> w]
Put(w, k) == IF Named(w, k.n) # {} \/ k.at <= w.blk THEN No(w)
             ELSE Yes([w EXCEPT !.tasks = @ \cup {[n |-> k.n, o |-> k.o, at |-> k.at, i |-> Place(w, k.at)]}])
Drop(c, w, o, ts) == IF \E t \in ts : MayUndo(c, o, t) THEN Yes([w EXCEPT !.tasks = @ \ ts]) ELSE No(w)
SApply(c, w, k) ==
    CASE k.op = "cmp" -> Yes(w)
      [] k.op = "put" -> Put(w, k)
      [] k.op = "drop" -> Drop(c, w, k.o, Named(w, k.n))
      [] k.op = "dropat" -> Drop(c, w, k.o, {t \in w.tasks : t.at = k.at /\ t.i = k.i})
      \* the calls: only root uses the agenda directly
      [] k.op = "put!" -> IF IsRoot(c, k.o) THEN Put(w, k) ELSE No(w)
      [] k.op = "drop!" -> IF IsRoot(c, k.o) THEN Drop(c, w, k.o, Named(w, k.n)) ELSE No(w)

C32(r) ==
    /\ \A t \in r.pre.tasks \ r.post.tasks : r.ok /\ MayUndo(r.cfg, r.call.o, t)
    /\ (r.call.op = "cmp" /\ r.ok) => r.cmp = Compare(r.cfg, r.call.o, r.call.p)
    /\ LET e == SApply(r.cfg, r.pre, r.call) IN r.ok = e.ok /\ r.post = e.w
=============================================================================
