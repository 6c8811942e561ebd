----------------------------- MODULE KreivoIds -----------------------------
(* The ids the kreivo runtime gives to payments: block, extrinsic and two    *)
(* bytes of the payee. All numbers are bytes, low byte first; an empty       *)
(* extrinsic index means that no extrinsic is being executed.                *)
(*                                                                           *)
(* world: [issued: sequence of [id, op, blk, ext, b]]                          *)
EXTENDS PaymentId

IdFor(k) == OfTriple(k.blk, k.ext, k.b)
\* what was made of it last: a request can be made again, or paid, by the same two
LastWith(w, id) == LET at == {i \in DOMAIN w.issued : w.issued[i].id = id}
                   IN IF at = {} THEN <<>> ELSE w.issued[CHOOSE i \in at : \A j \in at : j <= i]
Free(w, k) == LET p == LastWith(w, IdFor(k)) IN p = <<>> \/ (p.op = "req" /\ p.b = k.b)
Entry(id, k) == [id |-> id, op |-> k.op, blk |-> k.blk, ext |-> k.ext, b |-> k.b]
IApply(w, k) ==
    IF k.ext = <<>> \/ ~Free(w, k) THEN [ok |-> FALSE, w |-> w, id |-> <<>>]
    ELSE [ok |-> TRUE, id |-> IdFor(k),
          w |-> [w EXCEPT !.issued = Append(@, Entry(IdFor(k), k))]]

\* a place is a block and one of its first 65536 extrinsics
Counted(x) == x.ext[3] = 0 /\ x.ext[4] = 0
Elsewhere(x, y) == Counted(x) /\ Counted(y) /\ <<x.blk, x.ext>> # <<y.blk, y.ext>>

C26(r) ==
    /\ r.call.ext = <<>> => ~r.ok
    /\ r.ok =>
        /\ Len(r.id) = 8 /\ BlockOf(r.id) = r.call.blk /\ SubSeq(r.id, 3, 4) = SubSeq(r.call.ext, 1, 2)
        /\ SubSeq(r.id, 1, 2) = SubSeq(r.call.b, 1, 2)
        /\ \A i \in DOMAIN r.pre.issued : LET p == r.pre.issued[i] IN Elsewhere(p, r.call) => p.id # r.id
        /\ r.post.issued = Append(r.pre.issued, Entry(r.id, r.call))
    \* at a place of its own a payment is not turned down
    /\ (~r.ok /\ r.call.ext # <<>>) => \E i \in DOMAIN r.pre.issued : ~Elsewhere(r.pre.issued[i], r.call)
=============================================================================
