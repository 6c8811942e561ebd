--------------------------- MODULE KreivoAddress ---------------------------
(* Addresses: an account as such (id), a community by its number (index),    *)
(* and forms the runtime does not use (raw, 32, 20).                         *)
(* world: [rich: set of [a (account), n (whole tokens it was given)]]        *)
EXTENDS KreivoAccounts, FiniteSets

Nowhere == <<>>
Resolve(to) == CASE to.f = "id" -> to.a [] to.f = "index" -> CommunityAccount(to.c) [] OTHER -> Nowhere
Write(a) == [f |-> "id", a |-> a]
Held(w, a) == LET x == {y \in w.rich : y.a = a} IN IF x = {} THEN 0 ELSE (CHOOSE y \in x : TRUE).n
Give(w, a) == [w EXCEPT !.rich = {y \in @ : y.a # a} \cup {[a |-> a, n |-> Held(w, a) + 1]}]

Payer == User(7)
DApply(w, k) ==
    CASE k.op = "resolve" -> [ok |-> Resolve(k.to) # Nowhere, w |-> w, a |-> Resolve(k.to), to |-> <<>>]
      [] k.op = "write" -> [ok |-> TRUE, w |-> w, a |-> Nowhere, to |-> Write(k.a)]
      [] k.op = "give" -> LET a == Resolve(k.to) IN
            IF a = Nowhere THEN [ok |-> FALSE, w |-> w, a |-> Nowhere, to |-> <<>>]
            ELSE [ok |-> TRUE, w |-> IF a = Payer THEN w ELSE Give(w, a), a |-> Nowhere, to |-> <<>>]

C35(r) ==
    LET e == DApply(r.pre, r.call) IN
    /\ r.ok = e.ok /\ r.post = e.w
    /\ (r.ok /\ r.call.op = "resolve") => r.a = e.a
    /\ r.call.op = "write" => r.to = e.to /\ Resolve(r.to) = r.call.a
=============================================================================
