----------------------------- MODULE KreivoGov -----------------------------
(* Communities as the kreivo runtime sets them up: who speaks for one, who   *)
(* belongs to it, its track and the polls on that track. Authorities are     *)
(* those of KreivoOrigins, numbered as in cfg.who.                           *)
(* world: [comm: registered communities, adm: set of [o, c] (o administers   *)
(*   c), meth: set of [c, m] (ways of deciding that were set), mem: set of   *)
(*   [c, a, n] (a holds n memberships of c), pool: set of [c, n] (c has n    *)
(*   to give), tracks: set of [t, v] (track t in its v-th version), gov: set *)
(*   of [o, t] (t is the track of origin o), polls: seq of [t, o, st]]       *)
EXTENDS KreivoOrigins, FiniteSets

NoOne == -1
Only(S) == CHOOSE x \in S : TRUE
AdminOf(w, o) == LET x == {y \in w.adm : y.o = o} IN IF x = {} THEN NoOne ELSE Only(x).c
TrackOf(w, o) == LET x == {y \in w.gov : y.o = o} IN IF x = {} THEN NoOne ELSE Only(x).t
Members(w, c, a) == LET x == {y \in w.mem : y.c = c /\ y.a = a} IN IF x = {} THEN 0 ELSE Only(x).n
Spare(w, c) == LET x == {y \in w.pool : y.c = c} IN IF x = {} THEN 0 ELSE Only(x).n
Held(w, c, a, n) ==
    LET rest == {y \in w.mem : ~(y.c = c /\ y.a = a)} IN
    [w EXCEPT !.mem = IF n = 0 THEN rest ELSE rest \cup {[c |-> c, a |-> a, n |-> n]}]
Keeps(w, c, n) == [w EXCEPT !.pool = {y \in @ : y.c # c} \cup {[c |-> c, n |-> n]}]

\* the community an authority speaks for
Speaker(cfg, w, i) ==
    LET o == cfg.who[i] IN
    CASE o.o = "community" -> IF o.c \in w.comm THEN o.c ELSE NoOne
      [] o \notin {Root, None} /\ AdminOf(w, i) \in w.comm -> AdminOf(w, i)
      [] o.o = "signed" /\ IsCommunity(o.a) -> CommunityOf(o.a)
      [] OTHER -> NoOne
\* whose money an authority may pay with
Payer(o) == CASE o.o = "community" -> <<CommunityAccount(o.c)>> [] o.o = "signed" -> <<o.a>> [] OTHER -> <<>>

Yes(w) == [ok |-> TRUE, w |-> w, as |-> <<>>]
No(w) == [ok |-> FALSE, w |-> w, as |-> <<>>]
MayOpen(cfg, w, k) ==
    LET t == TrackOf(w, k.for) IN
    /\ t # NoOne
    /\ cfg.who[k.by] = Root \/ (cfg.who[k.by].o = "signed" /\ Members(w, t, k.by) > 0)

GApply(cfg, w, k) ==
    LET c == Speaker(cfg, w, k.by)
        root == cfg.who[k.by] = Root IN
    CASE k.op = "say" -> IF c = NoOne THEN No(w) ELSE [ok |-> TRUE, w |-> w, as |-> <<CommunityAccount(c)>>]
      [] k.op = "pay" -> LET a == Payer(cfg.who[k.by]) IN IF a = <<>> THEN No(w) ELSE [ok |-> TRUE, w |-> w, as |-> a]
      [] k.op = "meth" -> IF c # k.c THEN No(w)
            ELSE Yes([w EXCEPT !.meth = {x \in @ : x.c # c} \cup {[c |-> c, m |-> k.m]}])
      [] k.op = "add" -> IF c \notin w.comm \/ Spare(w, c) = 0 THEN No(w)
            ELSE Yes(Held(Keeps(w, c, Spare(w, c) - 1), c, k.a, Members(w, c, k.a) + 1))
      [] k.op = "drop" -> IF c # k.c \/ Members(w, c, k.a) = 0 THEN No(w)
            ELSE Yes(Held(Keeps(w, c, Spare(w, c) + 1), c, k.a, Members(w, c, k.a) - 1))
      [] k.op = "admin" -> IF c = NoOne \/ AdminOf(w, k.by) # c \/ AdminOf(w, k.to) \notin {NoOne, c} THEN No(w)
            ELSE Yes([w EXCEPT !.adm = {x \in @ : x.o # k.by} \cup {[o |-> k.to, c |-> c]}])
      [] k.op = "open" -> IF ~MayOpen(cfg, w, k) THEN No(w)
            ELSE Yes([w EXCEPT !.polls = Append(@, [t |-> TrackOf(w, k.for), o |-> k.for, st |-> "open"])])
      [] k.op \in {"cancel", "kill"} -> IF ~root \/ k.i \notin DOMAIN w.polls THEN No(w)
            ELSE IF w.polls[k.i].st # "open" THEN No(w)
            ELSE Yes([w EXCEPT !.polls[k.i] = [t |-> 0, o |-> 0, st |-> IF k.op = "kill" THEN "killed" ELSE "cancelled"]])
      [] k.op = "ins" -> IF ~root \/ \E x \in w.tracks : x.t = k.t THEN No(w)
            ELSE Yes([w EXCEPT !.tracks = @ \cup {[t |-> k.t, v |-> 0]}, !.gov = {x \in @ : x.o # k.for} \cup {[o |-> k.for, t |-> k.t]}])
      [] k.op = "upd" -> IF TrackOf(w, k.by) # k.t THEN No(w)
            ELSE Yes([w EXCEPT !.tracks = {x \in @ : x.t # k.t} \cup {[t |-> k.t, v |-> k.v]}])
      [] k.op = "del" -> IF ~root \/ ~\E x \in w.tracks : x.t = k.t THEN No(w)
            ELSE Yes([w EXCEPT !.tracks = {x \in @ : x.t # k.t}, !.gov = {x \in @ : x.t # k.t}])

Conforms(cfg, r) ==
    LET e == GApply(cfg, r.pre, r.call) IN r.ok = e.ok /\ r.post = e.w /\ (r.ok => r.as = e.as)

(* --- C28: nobody else acts for a community --- *)
\* those a community listens to: its origin, its own account, whom it took for administrator
Entitled(cfg, w, i, c) ==
    \/ cfg.who[i] = Community(c)
    \/ cfg.who[i] = Signed(CommunityAccount(c))
    \/ [o |-> i, c |-> c] \in w.adm
Of(S, c) == {x \in S : x.c = c}
C28(cfg, r) ==
    LET touched(c) == \/ Of(r.pre.adm, c) # Of(r.post.adm, c) \/ Of(r.pre.meth, c) # Of(r.post.meth, c)
                      \/ Of(r.pre.mem, c) # Of(r.post.mem, c) \/ Of(r.pre.pool, c) # Of(r.post.pool, c)
        spoken(c) == r.call.op \in {"say"} /\ r.ok /\ r.as = <<CommunityAccount(c)>> IN
    \A c \in {0} \cup {x.c : x \in r.pre.pool} : touched(c) \/ spoken(c) => Entitled(cfg, r.pre, r.call.by, c)
(* --- C36 --- *)
C36(cfg, r) ==
    LET by == r.call.by
        o == cfg.who[by] IN
    /\ Len(r.post.polls) > Len(r.pre.polls) =>
          /\ Len(r.post.polls) = Len(r.pre.polls) + 1
          /\ LET p == r.post.polls[Len(r.post.polls)] IN
             /\ [o |-> p.o, t |-> p.t] \in r.pre.gov
             /\ o = Root \/ (o.o = "signed" /\ \E x \in r.pre.mem : x.a = by /\ x.c = p.t)
    /\ \A x \in r.pre.tracks \ r.post.tracks : o = Root \/ [o |-> by, t |-> x.t] \in r.pre.gov
    /\ \A x \in r.post.tracks \ r.pre.tracks : o = Root \/ [o |-> by, t |-> x.t] \in r.pre.gov
    /\ r.post.gov # r.pre.gov => o = Root
=============================================================================
