------------------------------- MODULE Manager -------------------------------
(* Registering communities with all that belongs to them, and creating         *)
(* memberships. Properties C23 and C24 are predicates on one observed step.    *)
(* Accounts, origins and amounts as in Communities.                            *)
(* cfg:   [price, tracks (how many there may be)]                              *)
(* world: [comm, adm, meth, bal, rbal, cbal as in Communities,                 *)
(*        entries (how many communities and admins are stored in all),         *)
(*        coll (owner of collection i - 1, 0 if there is none),                *)
(*        tracks (set), governs (the track of each community's origin, or -1), *)
(*        inducted (rank of each community in the collective, or -1),          *)
(*        items (set of [c, m, o, price]: membership m of collection c is      *)
(*        owned by o and on sale for <<amount, for whom>> or not, <<>>)]       *)
EXTENDS Wide

Comms(w) == DOMAIN w.comm
No(w) == [ok |-> FALSE, w |-> w, ev |-> <<>>]
\* text: of bytes below 128 and pairs; anything longer is not used here
RECURSIVE Text(_)
Text(b) ==
    IF b = <<>> THEN TRUE
    ELSE IF Head(b) < 128 THEN Text(Tail(b))
    ELSE Len(b) >= 2 /\ Head(b) \in 194 .. 223 /\ b[2] \in 128 .. 191 /\ Text(SubSeq(b, 3, Len(b)))

Percent == 10000000
OwnTrack(c, name) ==
    [id |-> c, name |-> name, max |-> 1, dep |-> W0, prep |-> 1, dec |-> 255, conf |-> 1, enact |-> 1,
     app |-> <<100 * Percent, 50 * Percent, 100 * Percent>>, sup |-> <<100 * Percent, 0, 50 * Percent>>]
\* the one the driver asks for
GivenTrack(c) ==
    [id |-> c, name |-> <<103, 105, 118, 101, 110>>, max |-> 7, dep |-> N(5), prep |-> 6, dec |-> 50, conf |-> 8, enact |-> 9,
     app |-> <<100 * Percent, 10 * Percent, 90 * Percent>>, sup |-> <<100 * Percent, 10 * Percent, 90 * Percent>>]

Register(cfg, w, k) ==
    LET c == k.c
        pays == k.who # 99
        w1 == IF pays THEN [w EXCEPT !.bal[k.who] = WSub(@, cfg.price), !.rbal = WAdd(@, cfg.price)] ELSE w
    IN IF ~(k.who = 99 \/ k.who \in DOMAIN w.bal) \/ ~Text(k.name) THEN No(w)
       ELSE IF w.comm[c] # "none" \/ \E a \in w.adm : a.o = k.x THEN No(w)
       ELSE IF pays /\ ~WLeq(WAdd(cfg.price, N(1)), w.bal[k.who]) THEN No(w)
       ELSE IF w.coll[c + 1] # 0 \/ w.inducted[c] # -1 THEN No(w)
       ELSE IF (\E t \in w.tracks : t.id = c) \/ Cardinality(w.tracks) >= cfg.tracks THEN No(w)
       ELSE [ok |-> TRUE, ev |-> <<[k |-> "registered", c |-> c]>>,
             w |-> [w1 EXCEPT !.comm[c] = "active", !.adm = @ \cup {[o |-> k.x, c |-> c]}, !.entries = <<@[1] + 1, @[2] + 1>>,
                              !.meth[c] = IF k.me = <<>> THEN @ ELSE k.me[1], !.coll[c + 1] = 100 + c,
                              !.tracks = @ \cup {IF k.tr THEN GivenTrack(c) ELSE OwnTrack(c, k.name)}, !.governs[c] = c, !.inducted[c] = 0]]

\* how many memberships there are numbers for from m on, at most n
Room(m, n) == IF WLeq(WAdd(m, N(n)), WAdd(U32Max, N(1))) THEN n ELSE WSub(WAdd(U32Max, N(1)), m)[2]
Create(w, k) ==
    LET n == Room(k.m, k.n)
        new == {[c |-> 0, m |-> WAdd(k.m, N(i)), o |-> 98, price |-> <<k.price, 0>>] : i \in 0 .. n - 1}
        used == {i.m : i \in {j \in w.items : j.c = 0}}
    IN IF k.who # 99 \/ k.n > 1024 \/ \E i \in new : i.m \in used THEN No(w)
       ELSE [ok |-> TRUE, w |-> [w EXCEPT !.items = @ \cup new], ev |-> <<[k |-> "minted", m |-> k.m, n |-> n]>>]

Apply(cfg, w, k) == IF k.op = "reg" THEN Register(cfg, w, k) ELSE Create(w, k)

Registered(ev) == SelectSeq(ev, LAMBDA e : e.k = "registered")
C23(s) ==
    LET r == Register(s.cfg, s.pre, s.call) IN
    s.call.op = "reg" => s.ok = r.ok /\ s.post = r.w /\ Registered(s.ev) = r.ev
C24(s) ==
    LET r == Create(s.pre, s.call) IN
    s.call.op = "mkm" => s.ok = r.ok /\ s.post = r.w /\ s.ev = r.ev
Prop(p, s) == IF p = "C23" THEN C23(s) ELSE C24(s)
=============================================================================
