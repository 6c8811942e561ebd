---------------------------- MODULE KreivoCalls ----------------------------
(* Calls made on behalf of someone else: by proxies, whose type says what    *)
(* they may do, and by smart contracts, which may only hand over native      *)
(* tokens. A call is [p: pallet, f: function], those with `real` also do     *)
(* something here; `in` says what it is wrapped in.                          *)
(* world: [prox: set of [of, d, ty], nat, ast: units of accounts 1..4]       *)
(* Account 4 is the contract, account 1 owns the asset.                      *)
EXTENDS Integers, Sequences, FiniteSets

Types == {"Any", "NonTransfer", "CancelProxy", "Assets", "AssetOwner", "AssetManager", "Collator"}
Wraps == {"", "batch", "all", "force", "deriv", "deep"}
Owning == {"create", "start_destroy", "destroy_accounts", "destroy_approvals", "finish_destroy", "transfer_ownership",
           "set_team", "set_metadata", "clear_metadata"}
Managing == {"mint", "burn", "freeze", "thaw", "freeze_asset", "thaw_asset"}
\* calls that carry other calls, which are looked at in their turn, or are made as another account
Carriers == {"Utility", "Multisig"}
\* other calls that hand the caller's own funds or assets to whom the caller likes (teleports and
\* programs of one's own are switched off, instantiating contracts is not for accounts)
Handing == {<<"Payments", f>> : f \in {"pay", "accept_and_pay", "release"}} \cup {<<"Vesting", "vested_transfer">>}
    \cup {<<"PolkadotXcm", f>> : f \in {"reserve_transfer_assets", "limited_reserve_transfer_assets", "transfer_assets",
            "transfer_assets_using_type_and_then"}}
    \cup {<<"CommunityMemberships", f>> : f \in {"transfer", "buy_item", "pay_tips"}}
    \cup {<<"Contracts", f>> : f \in {"call", "call_old_weight"}}
Moves(p, f) == p \in {"Balances", "Assets"} \/ <<p, f>> \in Handing

May(ty, p, f) ==
    CASE ty = "Any" -> TRUE
      [] ty = "NonTransfer" -> ~Moves(p, f)
      [] p \in Carriers -> TRUE
      [] ty = "CancelProxy" -> p = "Proxy" /\ f = "reject_announcement"
      [] ty = "Assets" -> p = "Assets"
      [] ty = "AssetOwner" -> p = "Assets" /\ f \in Owning
      [] ty = "AssetManager" -> p = "Assets" /\ f \in Managing
      [] ty = "Collator" -> p = "CollatorSelection"
Above(a, b) == a = b \/ a = "Any" \/ (a = "Assets" /\ b \in {"AssetOwner", "AssetManager"}) \/ (a = "NonTransfer" /\ b = "Collator")
\* through a proxy no one gets a proxy with more power than their own
NoGain(ty, d) ==
    CASE d.p = "Proxy" /\ d.f \in {"add_proxy", "remove_proxy"} -> Above(ty, IF "ty" \in DOMAIN d THEN d.ty ELSE "Any")
      [] d.p = "Proxy" /\ d.f \in {"remove_proxies", "kill_pure"} -> ty = "Any"
      [] OTHER -> TRUE
\* what zeros as arguments carry, is looked at in its turn as well
Carries(ty, d) == (d.p = "Utility" /\ d.f = "as_derivative") => May(ty, "System", "remark")
\* all-or-nothing batches are not put into each other
Nested(in, d) == in \in {"all", "deep"} /\ d.p = "Utility" /\ d.f = "batch_all"
Through(ty, in, d) == (in = "" \/ May(ty, "Utility", "batch")) /\ May(ty, d.p, d.f) /\ NoGain(ty, d) /\ Carries(ty, d) /\ ~Nested(in, d)
\* out of a contract: only the plain transfer, and nothing that carries it
Out(in, d) == in = "" /\ d.p = "Balances" /\ d.f = "transfer_allow_death"

Real(d) == "real" \in DOMAIN d
\* what a call made as account n does; made as an account derived from it, nothing here changes
Done(w, n, d) ==
    CASE ~Real(d) -> w
      [] d.p = "Balances" -> [w EXCEPT !.nat[n] = @ - 1]
      [] d.p = "Assets" /\ d.f \in {"transfer", "transfer_keep_alive"} -> [w EXCEPT !.ast[n] = @ - 1]
      [] d.p = "Assets" /\ d.f = "mint" -> IF n = 1 THEN [w EXCEPT !.ast[1] = @ + 1] ELSE w
      [] d.p = "Assets" /\ d.f = "burn" -> IF n = 1 THEN [w EXCEPT !.ast[1] = @ - 1] ELSE w
      [] d.f = "add_proxy" -> IF d.d = n THEN w ELSE [w EXCEPT !.prox = @ \cup {[of |-> n, d |-> d.d, ty |-> d.ty]}]
      [] d.f = "remove_proxy" -> [w EXCEPT !.prox = @ \ {[of |-> n, d |-> d.d, ty |-> d.ty]}]
Effect(w, n, in, d) == IF in = "deriv" THEN w ELSE Done(w, n, d)
\* the types under which `by` may use `of` now
Held(w, by, of, as) == {ty \in Types : [of |-> of, d |-> by, ty |-> ty] \in w.prox /\ (as = "" \/ as = ty)}

\* all outcomes allowed: whether it was taken at all, whether it was held back, and the world after it
CApply(w, k) ==
    CASE k.op \in {"may", "above", "let", "list"} -> {[ok |-> TRUE, held |-> FALSE, w |-> w]}
      [] k.op = "own" -> {[ok |-> Done(w, k.by, k.do) # w \/ ~Real(k.do), held |-> FALSE, w |-> Done(w, k.by, k.do)]}
      [] k.op = "inside" -> {[ok |-> TRUE, held |-> ~Out(k.in, k.do), w |-> IF Out(k.in, k.do) THEN Effect(w, 4, k.in, k.do) ELSE w]}
      [] k.op = "use" ->
            LET T == Held(w, k.by, k.of, k.as) IN
            IF T = {} THEN {[ok |-> FALSE, held |-> FALSE, w |-> w]}
            \* of several proxies of one delegate any may be meant
            ELSE {[ok |-> TRUE, held |-> ~Through(ty, k.in, k.do), w |-> IF Through(ty, k.in, k.do) THEN Effect(w, k.of, k.in, k.do) ELSE w] : ty \in T}

\* r: [call, ok, got ("filtered" if held back), may, pre, post]; calls with zeros as arguments may do anything to the world
Fits(r) == \E e \in CApply(r.pre, r.call) :
    /\ (r.call.op = "own" /\ ~Real(r.call.do)) \/ r.ok = e.ok
    /\ r.ok => (r.got = "filtered") = e.held
    /\ (e.held \/ (("do" \in DOMAIN r.call) => Real(r.call.do))) => r.post = e.w
C27(r) == r.call.op \in {"may", "above", "own", "use"} =>
    /\ (r.call.op = "may" /\ r.ok) => r.may = May(r.call.ty, IF r.call.in = "" THEN r.call.do.p ELSE "Utility", IF r.call.in = "" THEN r.call.do.f ELSE "batch")
    /\ (r.call.op = "above" /\ r.ok) => r.may = Above(r.call.a, r.call.b)
    /\ Fits(r)
C33(r) == r.call.op \in {"let", "inside"} =>
    /\ (r.call.op = "let" /\ r.ok) => r.may = Out(r.call.in, r.call.do)
    /\ Fits(r)
\* the one known way in which the real runtime does more: its non-transfer proxies hand out funds
Known(r) == LET d == r.call.do IN
    IF /\ r.call.op \in {"may", "use"} /\ <<d.p, d.f>> \in Handing /\ r.ok
       /\ IF r.call.op = "may" THEN r.call.ty = "NonTransfer" /\ r.call.in = "" /\ r.may
          ELSE "NonTransfer" \in Held(r.pre, r.call.by, r.call.of, r.call.as) /\ r.got # "filtered"
    THEN "a non-transfer proxy makes " \o d.p \o "." \o d.f
    ELSE ""
=============================================================================
