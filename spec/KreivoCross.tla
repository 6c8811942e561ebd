---------------------------- MODULE KreivoCross ----------------------------
(* Other chains and the kreivo runtime. A place is [p: parents, j: sequence  *)
(* of junctions]; the relay chain is one up, sibling chains are below it.    *)
(* Kreivo is a parachain of kusama.                                          *)
(* world: [held: set of [i (asset; 0 the native one), a (account)], bond]    *)
EXTENDS KreivoOrigins, FiniteSets

At(p, j) == [p |-> p, j |-> j]
Para(n) == [t |-> "para", n |-> n]
Pallet(n) == [t |-> "pal", n |-> n]
Index(n) == [t |-> "gen", n |-> n]
Acc(net, id) == [t |-> "acc", net |-> net, id |-> id]
Consensus(net) == [t |-> "gc", net |-> net]
Body(b, part) == [t |-> "plu", body |-> b, n |-> <<0, 0>>, part |-> part]
Plurality(c) == [t |-> "plu", body |-> "index", n |-> <<0, c>>, part |-> "voice"]

RelayPlace == At(1, <<>>)
AssetHub == At(1, <<Para(1000)>>)
Polkadot == At(2, <<Consensus("polkadot")>>)
Down(l, j) == At(l.p, l.j \o j)
Within(l, m) == l.p = m.p /\ Len(l.j) <= Len(m.j) /\ \A i \in DOMAIN l.j : l.j[i] = m.j[i]
Only(l, p, t) == l.p = p /\ Len(l.j) = 1 /\ l.j[1].t = t

(* --- whose account a place stands for --- *)
OurNet(net) == net \in {"none", "kusama"}
Le32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Nobody == <<>>
AccountOf(l) ==
    CASE l = RelayPlace -> Fill(<<80, 97, 114, 101, 110, 116>>)      \* Parent
      [] Only(l, 1, "para") -> Fill(Sibl \o Le32(l.j[1].n))
      [] Only(l, 0, "plu") /\ l.j[1].body = "index" /\ l.j[1].n[1] = 0 -> CommunityAccount(l.j[1].n[2])
      [] (Only(l, 0, "acc") \/ Only(l, 1, "acc")) /\ OurNet(l.j[1].net) -> l.j[1].id
      [] OTHER -> Nobody

(* --- as whom a program from there may act --- *)
Nothing == [o |-> "no"]
Place == [o |-> "place"]
Authority(l, as) ==
    CASE as = "sovereign" /\ AccountOf(l) # Nobody -> Signed(AccountOf(l))
      [] as = "native" /\ l = RelayPlace -> Relay
      [] as = "native" /\ Only(l, 1, "para") -> Sibling(l.j[1].n)
      [] as = "native" /\ Only(l, 0, "acc") /\ OurNet(l.j[1].net) -> Signed(l.j[1].id)
      [] as = "xcm" -> Place
      [] OTHER -> Nothing
Free(l) == l = RelayPlace \/ (Only(l, 1, "plu") /\ l.j[1].body = "executive")
RulesCollators(l) == Only(l, 1, "plu") /\ l.j[1].body = "defense" /\ l.j[1].part = "voice"

(* --- as which place an origin of ours is seen elsewhere --- *)
NoPlace == [p |-> -1, j |-> <<>>]
Here == At(0, <<>>)                       \* root speaks for the chain itself
Face(by) ==
    CASE by = Root -> Here
      [] by.o = "community" -> At(0, <<Plurality(by.c)>>)
      [] by.o = "signed" /\ IsCommunity(by.a) -> At(0, <<Plurality(CommunityOf(by.a))>>)
      [] OTHER -> NoPlace
ExecuteFace(by) ==
    CASE by = Root -> Here
      [] by.o = "community" -> At(0, <<Plurality(by.c)>>)
      [] by.o = "signed" -> At(0, <<Acc("kusama", by.a)>>)
      [] OTHER -> NoPlace
Reachable(l) == l = RelayPlace \/ Only(l, 1, "para")

(* --- which chain vouches for which asset --- *)
Vouches(from, asset) ==
    \/ asset = from
    \/ from = AssetHub /\ (Within(AssetHub, asset) \/ Within(Polkadot, asset))
\* places that name an asset that can be held here (AssetLocation says which exactly)
AssetTail(j) == Len(j) = 3 /\ j[1].t = "para" /\ j[2].t = "pal" /\ j[3].t = "gen"
Holdable(l) ==
    \/ l.p = 1 /\ AssetTail(l.j)
    \/ /\ l.p = 2 /\ Len(l.j) \in {1, 4} /\ l.j[1].t = "gc" /\ l.j[1].net \in {"polkadot", "kusama", "ethereum", "ethereum5"}
       /\ Len(l.j) = 4 => AssetTail(Tail(l.j))

AssetPlace(cfg, i) == IF i = 0 THEN RelayPlace ELSE cfg.assets[i]
In(x, q) == \E i \in DOMAIN q : q[i] = x
Claim(cfg, w, k) ==
    LET l == AssetPlace(cfg, k.i)
        to == AccountOf(k.to)
        ok == /\ k.how = "reserve" /\ Vouches(Down(k.from, k.at), l)
              /\ k.i = 0 \/ Holdable(l)
              /\ to # Nobody
        seen == ok /\ to # Treasury /\ ~(k.i = 0 /\ In(to, cfg.rich)) IN
    [ok |-> ok, w |-> IF seen THEN [w EXCEPT !.held = @ \cup {[i |-> k.i, a |-> to]}] ELSE w]

CallHere(cfg, w, k) ==
    LET front == Down(k.from, k.at)
        actor == Down(front, k.then)
        let_in == IF k.paid THEN In(AccountOf(front), cfg.rich) ELSE Free(front)
        o == Authority(actor, k.as)
        ok == let_in /\ o # Nothing IN
    [ok |-> ok,
     w |-> IF ok /\ k.what = "bond" /\ o = Place /\ RulesCollators(actor) THEN [w EXCEPT !.bond = @ + 1] ELSE w,
     as |-> IF ok /\ k.what = "remark" /\ o.o = "signed" THEN o.a ELSE Nobody]

XApply(cfg, w, k) ==
    LET say(ok, x) == [ok |-> ok, w |-> w, x |-> IF ok THEN x ELSE [none |-> 0]] IN
    CASE k.op = "acct" -> say(AccountOf(k.l) # Nobody, [a |-> AccountOf(k.l)])
      [] k.op = "auth" -> say(Authority(k.l, k.as) # Nothing, [o |-> Authority(k.l, k.as)])
      [] k.op = "face" -> say(Face(k.by) # NoPlace, [l |-> Face(k.by)])
      [] k.op = "face!" -> say(ExecuteFace(k.by) # NoPlace, [l |-> ExecuteFace(k.by)])
      [] k.op = "send" -> say(Face(k.by) # NoPlace /\ Reachable(k.to), [l |-> Face(k.by), to |-> k.to, msgs |-> 1])
      [] k.op = "vouch" -> say(k.how = "reserve" /\ Vouches(k.from, k.l), [none |-> 0])
      [] k.op = "claim" -> LET r == Claim(cfg, w, k) IN [ok |-> r.ok, w |-> r.w, x |-> [none |-> 0]]
      [] k.op = "call" -> LET r == CallHere(cfg, w, k) IN
            [ok |-> r.ok, w |-> r.w, x |-> IF r.ok THEN [as |-> r.as] ELSE [none |-> 0]]

Conforms(cfg, r) == LET e == XApply(cfg, r.pre, r.call) IN r.ok = e.ok /\ r.post = e.w /\ r.x = e.x

(* --- what it comes to --- *)
\* an asset appears only when its reserve says so
Backed(cfg, r) ==
    \A h \in r.post.held \ r.pre.held :
        /\ r.call.op = "claim" /\ r.call.how = "reserve" /\ r.call.i = h.i
        /\ LET from == Down(r.call.from, r.call.at)
               l == AssetPlace(cfg, h.i) IN
           \/ l = from
           \/ from = AssetHub /\ l.p = 1 /\ Head(l.j) = Para(1000)
           \/ from = AssetHub /\ l.p = 2 /\ Head(l.j) = Consensus("polkadot")
\* nobody from elsewhere acts as root, as a community or as one of the collective's powers
Outsider(r) ==
    (r.call.op = "auth" /\ r.ok) => r.x.o.o \in {"signed", "relay", "sibling", "place"}
\* and only a place of our own acts as a community's account
OwnCommunity(r) ==
    (r.call.op = "auth" /\ r.ok /\ r.call.l.p > 0 /\ r.x.o.o = "signed" /\ IsCommunity(r.x.o.a)) => Only(r.call.l, 1, "acc")
=============================================================================
