----------------------------- MODULE Communities -----------------------------
(* Communities: registration and admins, memberships and ranks, votes,        *)
(* tallies and the funds frozen behind votes, and acting as the community's    *)
(* account. Properties C14..C20 and C22 are predicates on one observed step    *)
(* [cfg, pre, call, ok, post, ev].                                            *)
(*                                                                            *)
(* Accounts: 1.. users, 98 the account fees go to, 100+c community c's own.   *)
(* Origins: an account that signs, 200+c community c itself, 99 root, 0 none. *)
(* cfg:   [price (of a community, for those who pay)]                         *)
(* world: [comm (state of each community), adm (set of [o, c]: origin o       *)
(*        administers c), meth (how each community decides),                  *)
(*        items (set of [m, c, o, r]: membership m is in collection c, held   *)
(*        by o, at rank r; collection 0 is the pool of unassigned ones),      *)
(*        tot (members and summed ranks of each community),                   *)
(*        polls, votes (set; ck and cr are the method and rank a vote was     *)
(*        cast under), locks (set of [who, p, k, a, amt]),                    *)
(*        bal, cbal, rbal (native tokens of users, communities, 98),          *)
(*        frz (native tokens frozen), abal, afrz (per asset)]                 *)
(* Amounts are pairs, see Wide.                                               *)
EXTENDS Tally

Communities_(w) == DOMAIN w.comm
Users(w) == DOMAIN w.bal
Signed(o) == o # 0 /\ o # 99 /\ o < 200
CommunityAccount(c) == 100 + c
AnAdmin(w, o) == \E a \in w.adm : a.o = o
\* the community an origin administers now, 0 if none
Controls(w, o) ==
    LET c == IF o > 200 THEN o - 200
             ELSE IF o \in {0, 99} \/ ~AnAdmin(w, o) THEN 0
             ELSE (CHOOSE a \in w.adm : a.o = o).c
    IN IF c \in Communities_(w) THEN IF w.comm[c] = "active" THEN c ELSE 0 ELSE 0

No(w) == [ok |-> FALSE, w |-> w, ev |-> <<>>]
Yes(w, ev) == [ok |-> TRUE, w |-> w, ev |-> ev]

-----------------------------------------------------------------------------
(* Native tokens. The smallest balance of an account is 1.                    *)
Bal(w, x) == IF x = 98 THEN w.rbal ELSE IF x > 100 THEN w.cbal[x - 100] ELSE w.bal[x]
Frz(w, x) == IF x \in Users(w) THEN w.frz[x] ELSE W0
SetBal(w, x, v) == IF x = 98 THEN [w EXCEPT !.rbal = v] ELSE IF x > 100 THEN [w EXCEPT !.cbal[x - 100] = v] ELSE [w EXCEPT !.bal[x] = v]
Known(w, x) == x = 98 \/ x \in Users(w) \/ (x > 100 /\ x - 100 \in Communities_(w))
CanGive(w, x, v, keep) == WLeq(WAdd(v, WMax(Frz(w, x), IF keep THEN N(1) ELSE W0)), Bal(w, x))
Give(w, x, y, v) == LET w1 == SetBal(w, x, WSub(Bal(w, x), v)) IN SetBal(w1, y, WAdd(Bal(w1, y), v))

-----------------------------------------------------------------------------
(* Registration and administration.                                           *)
Create(cfg, w, k) ==
    IF ~ (k.who = 99 \/ Signed(k.who)) THEN No(w)
    ELSE IF w.comm[k.c] # "none" \/ AnAdmin(w, k.o) THEN No(w)
    ELSE IF k.who # 99 /\ ~CanGive(w, k.who, cfg.price, TRUE) THEN No(w)
    ELSE LET w1 == IF k.who = 99 THEN w ELSE Give(w, k.who, 98, cfg.price)
         IN Yes([w1 EXCEPT !.comm[k.c] = "active", !.adm = @ \cup {[o |-> k.o, c |-> k.c]}], <<[k |-> "created", c |-> k.c, o |-> k.o]>>)

SetAdmin(w, k) ==
    LET c == Controls(w, k.who)
        rest == w.adm \ {[o |-> k.who, c |-> c]}
    IN IF c = 0 \/ [o |-> k.who, c |-> c] \notin w.adm \/ \E a \in rest : a.o = k.o THEN No(w)
       ELSE Yes([w EXCEPT !.adm = rest \cup {[o |-> k.o, c |-> c]}], <<[k |-> "admin", c |-> c]>>)

SetMethod(w, k) ==
    LET c == Controls(w, k.who)
    IN IF c = 0 \/ c # k.c THEN No(w)
       ELSE Yes([w EXCEPT !.meth[c] = k.me], <<[k |-> "method", c |-> c]>>)

-----------------------------------------------------------------------------
(* Memberships.                                                               *)
Held(w, c, m) == {i \in w.items : i.c = c /\ i.m = m}
Free(w, c) == {i \in w.items : i.c = 0 /\ i.o = CommunityAccount(c)}
\* giving the unassigned membership i of community c to x
Assign(w, c, i, x) ==
    [w EXCEPT !.items = (@ \ {i}) \cup {[m |-> i.m, c |-> c, o |-> x, r |-> 0]}, !.tot[c].n = @ + 1]
Add(w, k) ==
    LET c == Controls(w, k.who)
    IN IF c = 0 THEN No(w)
       ELSE IF Free(w, c) = {} THEN No(w)
       ELSE LET i == CHOOSE i \in Free(w, c) : \A j \in Free(w, c) : i.m <= j.m       \* any of them will do
            IN Yes(Assign(w, c, i, k.x), <<[k |-> "added", x |-> k.x, m |-> i.m]>>)
Rem(w, k) ==
    LET c == Controls(w, k.who)
        is == {i \in Held(w, c, k.m) : i.o = k.x}
    IN IF c = 0 \/ is = {} THEN No(w)
       ELSE LET i == CHOOSE i \in is : TRUE
            IN Yes([w EXCEPT !.items = (@ \ {i}) \cup {[m |-> i.m, c |-> 0, o |-> CommunityAccount(c), r |-> 0]},
                             !.tot[c] = [n |-> @.n - 1, r |-> @.r - i.r]],
                   <<[k |-> "removed", x |-> k.x, m |-> k.m]>>)
MaxRank == 255
Rank(w, k) ==
    LET c == Controls(w, k.who)
        is == Held(w, c, k.m)
    IN IF c = 0 \/ is = {} THEN No(w)
       ELSE LET i == CHOOSE i \in is : TRUE
                r == IF k.op = "pro" THEN IF i.r = MaxRank THEN MaxRank ELSE i.r + 1 ELSE IF i.r = 0 THEN 0 ELSE i.r - 1
            IN Yes([w EXCEPT !.items = (@ \ {i}) \cup {[i EXCEPT !.r = r]}, !.tot[c].r = @ + r - i.r], <<[k |-> "rank", m |-> k.m, r |-> r]>>)
Hand(w, k) ==
    LET is == {i \in Held(w, k.c, k.m) : i.o = k.who}
    IN IF is = {} \/ ~Signed(k.who) THEN No(w)
       ELSE Yes([w EXCEPT !.items = (@ \ is) \cup {[i EXCEPT !.o = k.x] : i \in is}], <<>>)

-----------------------------------------------------------------------------
(* Votes. A vote counts by its amount, or 1 for a plain one; where the        *)
(* community decides by rank, times the rank of the membership.               *)
Units(v) == IF v.k = "std" THEN N(1) ELSE v.amt
Weight(v) == WMul(IF v.ck = "rank" THEN v.cr ELSE 1, Units(v))
OnPoll(w, p) == {v \in w.votes : v.p = p}
Cast(w, p, m) == {v \in w.votes : v.p = p /\ v.m = m}
Fits(me, k) ==
    CASE k.k = "std" -> me.k \in {"std", "rank"}
      [] k.k = "native" -> me.k = "native"
      [] OTHER -> me.k = "asset" /\ me.a = k.a /\ WLeq(me.min, k.amt)

Count(poll, v) == IF v.say THEN [poll EXCEPT !.ayes = WAdd(@, Weight(v)), !.bare = WAdd(@, Units(v))] ELSE [poll EXCEPT !.nays = WAdd(@, Weight(v))]
Discount(poll, v) == IF v.say THEN [poll EXCEPT !.ayes = SatSub(@, Weight(v)), !.bare = SatSub(@, Units(v))] ELSE [poll EXCEPT !.nays = SatSub(@, Weight(v))]

\* the votes backed by funds of x, of one kind of token (asset 0: native)
Token(v) == IF v.k = "native" THEN 0 ELSE v.a
Backed(S, x, a) == {v \in S : v.who = x /\ v.k # "std" /\ Token(v) = a}
Amounts(S) == {v.amt : v \in S}
\* what has to be frozen: the largest of what votes on open polls and locks not yet released ask for
Due(w, x, a) == WMax(WMaxOf(Amounts({v \in Backed(w.votes, x, a) : w.polls[v.p].st = "open"})), WMaxOf(Amounts(Backed(w.locks, x, a))))
Frozen(w, x, a) == IF a = 0 THEN w.frz[x] ELSE w.afrz[a][x]
Owned(w, x, a) == IF a = 0 THEN w.bal[x] ELSE w.abal[a][x]
Tokens(w) == 0 .. Len(w.abal)
Refreeze(w) == [w EXCEPT !.frz = [x \in Users(w) |-> Due(w, x, 0)], !.afrz = [a \in DOMAIN w.abal |-> [x \in Users(w) |-> Due(w, x, a)]]]
\* one lock per account and poll: the largest vote left there
Relock(w, x, p) ==
    LET vs == {v \in w.votes : v.who = x /\ v.p = p /\ v.k # "std"}
        top(a) == {v \in Backed(vs, x, a) : \A u \in Backed(vs, x, a) : WLeq(u.amt, v.amt)}
        new == {[who |-> x, p |-> p, k |-> v.k, a |-> v.a, amt |-> v.amt] : v \in UNION {top(a) : a \in Tokens(w)}}
    IN Refreeze([w EXCEPT !.locks = {l \in @ : ~(l.who = x /\ l.p = p)} \cup new])

Withdraw(w, v) ==
    LET w1 == [w EXCEPT !.votes = @ \ {v}, !.polls[v.p] = Discount(@, v)]
    IN IF v.k = "std" THEN w1 ELSE Relock(w1, v.who, v.p)

VotePlace(w, k) == {i \in w.items : i.m = k.m /\ i.o = k.who}
DoVote(w, k) ==
    LET is == VotePlace(w, k)
        i == CHOOSE i \in is : TRUE
        old == Cast(w, k.p, k.m)
        w1 == IF old = {} THEN w ELSE Withdraw(w, CHOOSE v \in old : TRUE)
        v == [p |-> k.p, m |-> k.m, who |-> k.who, say |-> k.say, k |-> k.k, a |-> k.a, amt |-> k.amt, ck |-> w.meth[i.c].k, cr |-> i.r]
        w2 == [w1 EXCEPT !.votes = @ \cup {v}, !.polls[k.p] = Count(@, v)]
    IN IF Units(k) = W0 \/ ~Signed(k.who) \/ is = {} THEN No(w)
       ELSE IF i.c = 0 \/ w.polls[k.p].st # "open" \/ w.polls[k.p].c # i.c THEN No(w)
       ELSE IF ~Fits(w.meth[i.c], k) THEN No(w)
       ELSE IF k.k # "std" /\ ~WLeq(k.amt, Owned(w, k.who, Token(k))) THEN No(w)
       ELSE Yes(IF k.k = "std" THEN w2 ELSE Relock(w2, k.who, k.p),
                <<[k |-> "voted", x |-> k.who, p |-> k.p, say |-> k.say, kind |-> k.k, a |-> k.a, amt |-> k.amt]>>)
Unvote(w, k) ==
    LET is == VotePlace(w, k)
        i == CHOOSE i \in is : TRUE
        old == Cast(w, k.p, k.m)
    IN IF ~Signed(k.who) \/ is = {} THEN No(w)
       ELSE IF i.c = 0 \/ w.polls[k.p].st # "open" \/ w.polls[k.p].c # i.c \/ old = {} THEN No(w)
       ELSE Yes(Withdraw(w, CHOOSE v \in old : TRUE), <<[k |-> "unvoted", x |-> k.who, p |-> k.p]>>)
Unlock(w, k) ==
    LET mine == {l \in w.locks : l.who = k.who /\ l.p = k.p}
    IN IF ~Signed(k.who) \/ w.polls[k.p].st = "open" \/ mine = {} THEN No(w)
       ELSE Yes(Refreeze([w EXCEPT !.locks = @ \ mine]), <<>>)

-----------------------------------------------------------------------------
RECURSIVE Apply(_, _, _)
As(cfg, w, k) ==
    LET c == Controls(w, k.who)
        in == [k.in EXCEPT !.who = CommunityAccount(c)]
    IN IF c = 0 THEN No(w) ELSE Apply(cfg, w, in)

Apply(cfg, w, k) ==
    CASE k.op = "create" -> Create(cfg, w, k)
      [] k.op = "setadm" -> SetAdmin(w, k)
      [] k.op = "meth" -> SetMethod(w, k)
      [] k.op = "add" -> Add(w, k)
      [] k.op = "rem" -> Rem(w, k)
      [] k.op \in {"pro", "dem"} -> Rank(w, k)
      [] k.op = "vote" -> DoVote(w, k)
      [] k.op = "unvote" -> Unvote(w, k)
      [] k.op = "unlock" -> Unlock(w, k)
      [] k.op = "as" -> As(cfg, w, k)
      \* the rest of the chain
      [] k.op = "remark" -> IF Signed(k.who) THEN Yes(w, <<[k |-> "remarked", x |-> k.who]>>) ELSE No(w)
      [] k.op = "store" -> IF k.who = 99 THEN Yes(w, <<>>) ELSE No(w)
      [] k.op = "give" -> IF Signed(k.who) /\ Known(w, k.who) /\ CanGive(w, k.who, k.amt, FALSE) THEN Yes(Give(w, k.who, k.x, k.amt), <<>>) ELSE No(w)
      [] k.op = "agive" -> IF k.who \in Users(w) /\ WLeq(WAdd(k.amt, w.afrz[k.a][k.who]), w.abal[k.a][k.who])
                           THEN Yes(LET w1 == [w EXCEPT !.abal[k.a][k.who] = WSub(@, k.amt)] IN [w1 EXCEPT !.abal[k.a][k.x] = WAdd(@, k.amt)], <<>>)
                           ELSE No(w)
      [] k.op = "hand" -> Hand(w, k)
      [] k.op = "block" -> Yes(IF w.comm[k.c] = "none" THEN w ELSE [w EXCEPT !.comm[k.c] = "blocked"], <<>>)
      [] k.op = "free" -> Yes(IF w.comm[k.c] = "none" THEN w ELSE [w EXCEPT !.comm[k.c] = "active"], <<>>)
      [] k.op = "open" -> Yes([w EXCEPT !.polls[k.p] = [st |-> "open", c |-> k.c, ayes |-> W0, nays |-> W0, bare |-> W0]], <<>>)
      [] k.op = "close" -> Yes(IF w.polls[k.p].st # "open" THEN w
                               ELSE [w EXCEPT !.polls[k.p] = [st |-> IF k.yes THEN "yes" ELSE "no", c |-> @.c, ayes |-> W0, nays |-> W0, bare |-> W0]], <<>>)

-----------------------------------------------------------------------------
(* The call that takes effect: what is inside of acting as a community.       *)
RECURSIVE Inner(_, _)
Inner(w, k) == IF k.op = "as" /\ Controls(w, k.who) # 0 THEN Inner(w, [k.in EXCEPT !.who = CommunityAccount(Controls(w, k.who))]) ELSE k

Refused(s) == ~s.ok => s.post = s.pre
\* the origins that administer something
Ctl(w) == {[o |-> o, c |-> Controls(w, o)] : o \in {x \in {a.o : a \in w.adm} \cup {200 + c : c \in Communities_(w)} : Controls(w, x) # 0}}
OneAdmin(w) == \A c \in Communities_(w) : Cardinality({a \in w.adm : a.c = c}) = IF w.comm[c] = "none" THEN 0 ELSE 1

C14(s) ==
    LET r == Apply(s.cfg, s.pre, s.call)
        k == Inner(s.pre, s.call)
    IN /\ Refused(s)
       /\ s.post.comm = r.w.comm /\ s.post.adm = r.w.adm
       /\ OneAdmin(s.pre) => OneAdmin(s.post)
       /\ s.ctl = Ctl(s.post)
       /\ k.op \in {"create", "setadm"} => s.ok = r.ok /\ s.ev = r.ev
       /\ k.op = "create" => s.post.bal = r.w.bal /\ s.post.rbal = r.w.rbal /\ s.post.cbal = r.w.cbal

\* what belongs to a community and only its admin may change
Own(w, c) == [adm |-> {a \in w.adm : a.c = c}, meth |-> w.meth[c], items |-> {i \in w.items : i.c = c}, tot |-> w.tot[c],
              pool |-> {i \in w.items : i.c = 0 /\ i.o = CommunityAccount(c)}]
Administration == {"setadm", "meth", "add", "rem", "pro", "dem"}
C15(s) ==
    LET k == Inner(s.pre, s.call)
        c == Controls(s.pre, k.who)
    IN /\ Refused(s)
       /\ k.op \in Administration => s.ok = Apply(s.cfg, s.pre, s.call).ok
       /\ \A d \in Communities_(s.pre) :
             Own(s.post, d) # Own(s.pre, d) =>
                \/ k.op \in Administration /\ c = d
                \/ k.op = "create" /\ k.c = d /\ s.pre.comm[d] = "none"
                \/ k.op = "hand"
       /\ k.op = "meth" /\ s.ok => s.post.meth = [s.pre.meth EXCEPT ![c] = k.me] /\ s.ev = <<[k |-> "method", c |-> c]>>

Where(w) == {[m |-> i.m, c |-> i.c, o |-> i.o] : i \in w.items}
OncePlaced(w) == \A i, j \in w.items : i.m = j.m => i = j
Answers(s) ==
    \A c \in Communities_(s.post), x \in Users(s.post) :
        LET mine == {i \in s.post.items : i.c = c /\ i.o = x}
        IN /\ s.ask[c][x].is = (mine # {}) /\ s.ask[c][x].may = (mine # {})
           /\ {s.ask[c][x].ms[i] : i \in DOMAIN s.ask[c][x].ms} = {[m |-> i.m, r |-> i.r] : i \in mine}
           /\ Len(s.ask[c][x].ms) = Cardinality(mine)
C16(s) ==
    LET r == Apply(s.cfg, s.pre, s.call)
        k == Inner(s.pre, s.call)
        c == Controls(s.pre, k.who)
    IN /\ Refused(s)
       /\ OncePlaced(s.pre) => OncePlaced(s.post)
       /\ Answers(s)
       /\ \A d \in Communities_(s.pre) : s.post.tot[d].n - s.pre.tot[d].n = Cardinality({i \in s.post.items : i.c = d}) - Cardinality({i \in s.pre.items : i.c = d})
       /\ k.op \in {"add", "rem"} => s.ok = r.ok
       /\ IF k.op = "add" /\ s.ok
          THEN \E i \in Free(s.pre, c) : Where(s.post) = Where(Assign(s.pre, c, i, k.x)) /\ s.ev = <<[k |-> "added", x |-> k.x, m |-> i.m]>>
          ELSE Where(s.post) = Where(r.w)
       /\ k.op = "rem" => s.ev = r.ev

Ranks(w) == {[m |-> i.m, c |-> i.c, r |-> i.r] : i \in w.items}
C17(s) ==
    LET r == Apply(s.cfg, s.pre, s.call)
        k == Inner(s.pre, s.call)
        same == {i.m : i \in {j \in s.pre.items : \E l \in s.post.items : l.m = j.m /\ l.c = j.c}}
    IN /\ Refused(s)
       /\ Answers(s)
       /\ IF k.op \in {"pro", "dem"}
          THEN s.ok = r.ok /\ s.ev = r.ev /\ Ranks(s.post) = Ranks(r.w)
          ELSE /\ \A i \in s.post.items : i.m \notin same => i.r = 0
               /\ {x \in Ranks(s.post) : x.m \in same} = {x \in Ranks(s.pre) : x.m \in same}
       /\ \A c \in Communities_(s.post) :
             LET sum(w) == MapThenSumSet(LAMBDA i : i.r, {i \in w.items : i.c = c})
             IN s.post.tot[c].r - s.pre.tot[c].r = sum(s.post) - sum(s.pre)

Plain(v) == [p |-> v.p, m |-> v.m, who |-> v.who, say |-> v.say, k |-> v.k, a |-> v.a, amt |-> v.amt]
PlainVotes(w) == {Plain(v) : v \in w.votes}
Open(w, p) == w.polls[p].st = "open"
Ayes(S) == {v \in S : v.say}
Nays(S) == {v \in S : ~v.say}
\* ayes, nays and unmultiplied ayes change by exactly the votes that came and went
C18At(s, p) ==
    LET came == OnPoll(s.post, p) \ OnPoll(s.pre, p)
        went == OnPoll(s.pre, p) \ OnPoll(s.post, p)
        a == s.pre.polls[p]
        b == s.post.polls[p]
        same(x, y, S, T, f(_)) == WAdd(x, WSumOf(S, f)) = WAdd(y, WSumOf(T, f))
    IN IF Open(s.pre, p) /\ Open(s.post, p)
       THEN /\ same(a.ayes, b.ayes, Ayes(came), Ayes(went), Weight)
            /\ same(a.bare, b.bare, Ayes(came), Ayes(went), Units)
            /\ same(a.nays, b.nays, Nays(came), Nays(went), Weight)
       ELSE came = {} /\ went = {}
C18(s) ==
    /\ Refused(s)
    /\ \A p \in DOMAIN s.pre.polls : C18At(s, p)
    /\ s.ok = Apply(s.cfg, s.pre, s.call).ok => PlainVotes(s.post) = PlainVotes(Apply(s.cfg, s.pre, s.call).w)

C19(s) ==
    LET r == Apply(s.cfg, s.pre, s.call)
        k == Inner(s.pre, s.call)
    IN /\ Refused(s)
       /\ k.op \in {"vote", "unvote"} => s.ok = r.ok /\ s.ev = r.ev
       /\ PlainVotes(s.post) = PlainVotes(r.w)
       /\ \A v, u \in s.post.votes : v.p = u.p /\ v.m = u.m => v = u

\* enough is frozen for the votes on open polls; no more than votes and locks ask for
Enough(w, x, a) == WLeq(WMaxOf(Amounts({v \in Backed(w.votes, x, a) : Open(w, v.p)})), Frozen(w, x, a))
NoMore(w, x, a) == WLeq(Frozen(w, x, a), Due(w, x, a))
C20Broken(s) == {<<x, a>> \in Users(s.pre) \X Tokens(s.pre) :
                    \/ Enough(s.pre, x, a) /\ ~Enough(s.post, x, a)
                    \/ NoMore(s.pre, x, a) /\ ~NoMore(s.post, x, a)}
C20(s) ==
    LET r == Apply(s.cfg, s.pre, s.call)
        k == Inner(s.pre, s.call)
        locked(w, x, p) == \E l \in w.locks : l.who = x /\ l.p = p
        voted(w, x, p) == \E v \in w.votes : v.who = x /\ v.p = p /\ v.k # "std"
    IN /\ Refused(s)
       /\ C20Broken(s) = {}
       /\ k.op = "unlock" => s.ok = r.ok
       /\ k.op = "unlock" /\ s.ok => ~locked(s.post, k.who, k.p)
       /\ k.op \in {"vote", "unvote"} /\ s.ok =>
             \A v \in s.pre.votes \ s.post.votes : ~voted(s.post, v.who, v.p) => ~locked(s.post, v.who, v.p)
       \* frozen funds do not move, the others do
       /\ k.op \in {"give", "agive"} => s.ok = r.ok /\ s.post.bal = r.w.bal /\ s.post.abal = r.w.abal

\* those whose votes could count in a community
Electorate(w, c) ==
    LET me == w.meth[c] IN
    CASE me.k = "std" -> N(w.tot[c].n)
      [] me.k = "rank" -> N(w.tot[c].r)
      [] me.k = "native" -> WAdd(w.rbal, WAdd(WTotal(w.bal), WTotal(w.cbal)))
      [] OTHER -> WTotal(w.abal[me.a])
C21With(s, supports(_, _, _)) ==
    \A p \in DOMAIN s.post.polls : Open(s.post, p) =>
        LET q == s.post.polls[p] f == s.frac[p] IN Approval(f[1], q.ayes, q.nays) /\ supports(f[2], q.bare, Electorate(s.post, q.c))
C21(s) == C21With(s, Support)
C21Sig(s) == IF C21With(s, LAMBDA f, b, e : Support(f, b, e) \/ SupportOf32(f, b, e)) THEN "electorate beyond 32 bits" ELSE ""

C22(s) ==
    LET r == Apply(s.cfg, s.pre, s.call)
        k == Inner(s.pre, s.call)
    IN /\ Refused(s)
       /\ s.call.op = "as" => s.ok = r.ok
       /\ s.call.op = "as" /\ k.op # "add" => s.ev = r.ev
       /\ s.call.op = "as" /\ s.ok => s.post.bal = r.w.bal /\ s.post.cbal = r.w.cbal /\ s.post.rbal = r.w.rbal /\ s.post.adm = r.w.adm /\ s.post.comm = r.w.comm
       /\ Controls(s.pre, s.call.who) = 0 /\ s.call.op = "as" => ~s.ok

PropsNames == {"C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}
Prop(p, s) ==
    CASE p = "C14" -> C14(s) [] p = "C15" -> C15(s) [] p = "C16" -> C16(s) [] p = "C17" -> C17(s)
      [] p = "C18" -> C18(s) [] p = "C19" -> C19(s) [] p = "C20" -> C20(s) [] p = "C21" -> C21(s) [] p = "C22" -> C22(s)

-----------------------------------------------------------------------------
(* Deviations of the code that are known (known_findings.json). Each is named *)
(* only if the step did exactly what the code is known to do.                 *)
CodeRank(w, p, m) == LET is == Held(w, w.polls[p].c, m) IN IF is = {} THEN 0 ELSE (CHOOSE i \in is : TRUE).r
CodeWeight(w, v) == Sat32(Units(v))
CodeTimes(w, v) == IF w.meth[w.polls[v.p].c].k = "rank" THEN CodeRank(w, v.p, v.m) ELSE 1
CodeCount(poll, times, v) ==
    LET u == Sat32(Units(v)) IN
    IF v.say THEN [poll EXCEPT !.ayes = SatAdd(@, WMul(times, u)), !.bare = SatAdd(@, u)] ELSE [poll EXCEPT !.nays = SatAdd(@, WMul(times, u))]
CodeDiscount(poll, times, v) ==
    LET u == Sat32(Units(v)) IN
    IF v.say THEN [poll EXCEPT !.ayes = SatSub(@, WMul(times, u)), !.bare = SatSub(@, u)] ELSE [poll EXCEPT !.nays = SatSub(@, WMul(times, u))]
\* the vote withdrawn and the vote cast by a call
Gone(s, k) == IF k.op \in {"vote", "unvote"} THEN Cast(s.pre, k.p, k.m) ELSE {}
New(s, k) == IF k.op = "vote" THEN Cast(s.post, k.p, k.m) ELSE {}
CodePoll(s, k) ==
    LET g == Gone(s, k)
        n == New(s, k)
        a == IF g = {} THEN s.pre.polls[k.p] ELSE LET v == CHOOSE v \in g : TRUE IN CodeDiscount(s.pre.polls[k.p], CodeTimes(s.pre, v), v)
    IN IF n = {} THEN a ELSE LET v == CHOOSE v \in n : TRUE IN CodeCount(a, CodeTimes(s.pre, v), v)
TallyOf(w, p) ==
    [ayes |-> WSumOf(Ayes(OnPoll(w, p)), Weight), bare |-> WSumOf(Ayes(OnPoll(w, p)), Units), nays |-> WSumOf(Nays(OnPoll(w, p)), Weight)]
TallyIs(w, p) == LET t == TallyOf(w, p) q == w.polls[p] IN t.ayes = q.ayes /\ t.bare = q.bare /\ t.nays = q.nays
Large(S) == \E v \in S : ~WLeq(Weight(v), U32Max)

C18Sig(s, panic) ==
    LET k == Inner(s.pre, s.call)
        g == Gone(s, k)
        changed == \E v \in g : CodeTimes(s.pre, v) # (IF v.ck = "rank" THEN v.cr ELSE 1)
        others == \A p \in DOMAIN s.pre.polls : p = k.p \/ s.post.polls[p] = s.pre.polls[p]
        votes == PlainVotes(s.post) = PlainVotes(Apply(s.cfg, s.pre, s.call).w)
    IN IF k.op \notin {"vote", "unvote"} THEN ""
       ELSE IF panic
       THEN IF \E v \in g : ~WLeq(WMul(CodeTimes(s.pre, v), Sat32(Units(v))), U32Max) THEN "weight times rank overflows" ELSE ""
       ELSE IF ~(s.ok /\ others /\ votes /\ s.post.polls[k.p] = CodePoll(s, k)) THEN ""
       ELSE IF changed THEN "rank or method changed since the vote"
       ELSE IF ~TallyIs(s.pre, k.p) THEN "tally already off"
       ELSE IF Large(g \cup New(s, k)) \/ LET t == TallyOf(s.post, k.p) IN ~(WLeq(t.ayes, U32Max) /\ WLeq(t.nays, U32Max) /\ WLeq(t.bare, U32Max))
       THEN "beyond 32 bits"
       ELSE ""

CodeFrozen(w, x, a) == WMaxOf(Amounts(Backed(w.locks, x, a)))
C20Sig(s) ==
    LET k == Inner(s.pre, s.call)
        twice(w, x, p) == Cardinality({v \in w.votes : v.p = p /\ v.who = x /\ v.k # "std"}) > 1
    IN IF k.op \in {"vote", "unvote", "unlock", "close"} /\ s.ok
          /\ C20Broken(s) # {}
          /\ \A b \in C20Broken(s) :
                /\ \E p \in DOMAIN s.pre.polls : twice(s.pre, b[1], p) \/ twice(s.post, b[1], p)
                /\ \/ Frozen(s.post, b[1], b[2]) = CodeFrozen(s.post, b[1], b[2])
                   \/ k.op \in {"vote", "close"} /\ Frozen(s.post, b[1], b[2]) = Frozen(s.pre, b[1], b[2])
       THEN "two memberships of one account on one poll share a lock" ELSE ""
Sig(p, s, panic) == CASE p = "C21" /\ ~panic -> C21Sig(s) [] p = "C18" -> C18Sig(s, panic) [] p = "C20" -> IF panic THEN C18Sig(s, panic) ELSE C20Sig(s) [] p = "C19" -> IF panic THEN C18Sig(s, panic) ELSE "" [] OTHER -> ""
=============================================================================
