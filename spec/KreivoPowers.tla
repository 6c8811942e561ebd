---------------------------- MODULE KreivoPowers ----------------------------
(* Who may make which call of the kreivo runtime, and what comes of the      *)
(* privileged ones. An origin is [o: kind, ...]: root, none, signed [a],     *)
(* community [c], memberships, canceller, killer, relay, sibling [p], place  *)
(* [l: a place outside].                                                     *)
(* world: [codes: set of [n, by], contracts: how many by code, assets: set,  *)
(*   bond: by how much it was raised, users: set, comms: set, seats:         *)
(*   community -> rank, items: set, spent: per purse, got: by the treasury]  *)
(*   amounts wide                                                            *)
(* purse: sequence of the accounts that have funds; others have none         *)
EXTENDS Wide

----------------------------------------------------------------------------
(* whom a call is for *)
Of(p, F) == {<<p, f>> : f \in F}
Nobody == Of("Assets", {"create"}) \cup Of("KreivoCollective", {"add_member"}) \cup Of("Treasury", {"spend", "spend_local"})
RootOnly ==
    Of("Assets", {"force_asset_status", "force_clear_metadata", "force_create", "force_set_metadata"})
    \cup Of("Balances", {"force_adjust_total_issuance", "force_set_balance", "force_transfer", "force_unreserve"})
    \cup Of("CommunityMemberships", {"create", "force_collection_owner", "force_create"})
    \cup Of("CommunityReferenda", {"cancel", "kill", "nudge_referendum", "one_fewer_deciding"})
    \cup Of("CommunityTracks", {"insert", "remove"})
    \cup Of("Contracts", {"instantiate_with_code", "instantiate_with_code_old_weight", "set_code", "upload_code"})
    \cup Of("KreivoCollective", {"demote_member", "exchange_member", "promote_member", "remove_member"})
    \cup Of("KreivoReferenda", {"nudge_referendum", "one_fewer_deciding"})
    \cup Of("ParachainSystem", {"sudo_send_upward_message"})
    \cup Of("Payments", {"resolve_dispute"})
    \cup Of("PolkadotXcm", {"force_xcm_version", "force_default_xcm_version", "force_subscribe_version_notify",
            "force_unsubscribe_version_notify", "force_suspension"})
    \cup Of("Preimage", {"request_preimage", "unrequest_preimage"})
    \cup Of("Scheduler", {"schedule", "schedule_named", "schedule_after", "schedule_named_after", "cancel", "cancel_named"})
    \cup Of("System", {"kill_prefix", "kill_storage", "set_code", "set_code_without_checks", "set_heap_pages", "set_storage",
            "authorize_upgrade", "authorize_upgrade_without_checks"})
    \cup Of("Treasury", {"remove_approval", "void_spend"})
    \cup Of("Utility", {"dispatch_as", "with_weight"})
    \cup Of("Vesting", {"force_vested_transfer", "force_remove_vesting_schedule"})
    \cup Of("XcmpQueue", {"suspend_xcm_execution", "resume_xcm_execution", "update_suspend_threshold", "update_drop_threshold",
            "update_resume_threshold"})
Collators == Of("CollatorSelection", {"add_invulnerable", "remove_invulnerable", "set_candidacy_bond", "set_desired_candidates",
            "set_invulnerables"})
Minting == Of("CommunitiesManager", {"create_memberships"})
Founding == Of("CommunitiesManager", {"register"})
Deploying == Of("Contracts", {"instantiate", "instantiate_old_weight"})
Joining == Of("Pass", {"register"})
Cancelling == Of("KreivoReferenda", {"cancel"})
Killing == Of("KreivoReferenda", {"kill"})
Inherent == Of("ParachainSystem", {"set_validation_data"}) \cup Of("Timestamp", {"set"})
Paying == Of("Payments", {"pay", "release", "request_refund", "accept_and_pay"})
Personal ==
    Of("Assets", {"mint", "burn", "transfer", "transfer_keep_alive", "freeze", "thaw", "freeze_asset", "thaw_asset", "transfer_ownership",
        "set_team", "set_metadata", "clear_metadata", "start_destroy", "destroy_accounts", "destroy_approvals", "finish_destroy"})
    \cup Of("Balances", {"transfer_allow_death", "transfer_keep_alive", "transfer_all"})
    \cup Of("Proxy", {"add_proxy", "remove_proxy", "remove_proxies", "proxy"})
    \cup Of("Multisig", {"as_multi", "approve_as_multi", "cancel_as_multi"})
    \cup Of("Contracts", {"call", "call_old_weight"})
    \cup Of("Payments", {"cancel", "dispute_refund", "request_payment"})
    \cup Of("KreivoReferenda", {"submit"}) \cup Of("KreivoCollective", {"vote"})
    \cup Of("CollatorSelection", {"register_as_candidate", "leave_intent", "update_bond", "take_candidate_slot"})
    \cup Of("CommunityMemberships", {"mint", "burn", "transfer", "set_price", "buy_item"})
Known == Nobody \cup RootOnly \cup Collators \cup Minting \cup Founding \cup Deploying \cup Joining \cup Cancelling \cup Killing
    \cup Inherent \cup Paying \cup Personal

\* what speaks for the relay chain's staking administration
Staking == [o |-> "place", l |-> [p |-> 1, j |-> <<[t |-> "plu", body |-> "defense", part |-> "voice"]>>]]
\* the communities that may deploy contracts
Deployers == {1, 2}

Entitled(o, c) ==
    CASE c \in Nobody -> FALSE
      [] c \in RootOnly -> o.o = "root"
      [] c \in Collators -> o.o = "root" \/ o = Staking
      [] c \in Minting -> o.o \in {"root", "memberships"}
      [] c \in Founding -> o.o \in {"root", "signed"}
      [] c \in Deploying -> o.o = "root" \/ (o.o = "community" /\ o.c \in Deployers)
      [] c \in Joining -> o.o \in {"root", "signed", "community"}
      [] c \in Cancelling -> o.o = "canceller"
      [] c \in Killing -> o.o = "killer"
      [] c \in Inherent -> o.o = "none"
      [] c \in Paying -> o.o \in {"signed", "community"}
      [] c \in Personal -> o.o = "signed"
\* nothing depends on whether root may also do what these do
Open(o, c) == c \notin Known \/ (o.o = "root" /\ c \in Cancelling \cup Killing)
\* these pallets look at more than the origin before they turn a caller away
Own(c) == c[1] \in {"Payments", "CommunitiesManager"}

----------------------------------------------------------------------------
(* what comes of a call; pr: [ed, unit] the existential deposit and the unit *)
Call(k) ==
    CASE k.op = "upload" -> <<"Contracts", "upload_code">>
      [] k.op = "deploy" -> <<"Contracts", "instantiate">>
      [] k.op = "asset" -> <<"Assets", "force_create">>
      [] k.op = "own asset" -> <<"Assets", "create">>
      [] k.op = "bond" -> <<"CollatorSelection", "set_candidacy_bond">>
      [] k.op = "mint" -> <<"CommunitiesManager", "create_memberships">>
      [] k.op = "raise" -> <<"KreivoCollective", "promote_member">>
      [] k.op = "lower" -> <<"KreivoCollective", "demote_member">>
      [] k.op = "seat" -> <<"KreivoCollective", "add_member">>
      [] k.op = "found" -> <<"CommunitiesManager", "register">>
      [] k.op = "join" -> <<"Pass", "register">>
Half(a) == <<a[1] \div 2, (a[2] + (a[1] % 2) * WBase) \div 2>>
Purse(purse, o) == IF o.o = "signed" /\ \E i \in DOMAIN purse : purse[i] = o.a THEN CHOOSE i \in DOMAIN purse : purse[i] = o.a ELSE 0
\* founding and joining cost accounts something, which the treasury gets; governance and communities join freely
Price(k, pr) ==
    CASE k.by.o # "signed" -> W0
      [] k.op = "found" -> Half(pr.unit)
      [] k.op = "join" -> pr.ed
      [] OTHER -> W0
\* an account is not emptied for it
Affords(purse, k) == (k.op \in {"found", "join"} /\ k.by.o = "signed") => Purse(purse, k.by) # 0
Paid(w, purse, k, pr) ==
    LET i == Purse(purse, k.by) IN
    IF i = 0 \/ k.op \notin {"found", "join"} THEN w
    ELSE [w EXCEPT !.spent[i] = WAdd(@, Price(k, pr)), !.got = WAdd(@, Price(k, pr))]

Possible(w, k) ==
    CASE k.op = "upload" -> TRUE
      [] k.op = "deploy" -> \E c \in w.codes : c.n = k.n
      [] k.op = "asset" -> k.n \notin w.assets
      [] k.op = "mint" -> k.n \notin w.items
      [] k.op \in {"raise", "lower"} -> k.n \in DOMAIN w.seats
      [] k.op = "found" -> k.n \notin w.comms
      [] k.op = "join" -> k.n \notin w.users
      [] OTHER -> TRUE
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* uploaded code is the treasury's
Effect(w, k, treasury) ==
    CASE k.op = "upload" -> [w EXCEPT !.codes = {c \in @ : c.n # k.n} \cup {[n |-> k.n, by |-> treasury]}]
      [] k.op = "deploy" -> [w EXCEPT !.contracts = [@ EXCEPT ![k.n] = @ + 1]]
      [] k.op = "asset" -> [w EXCEPT !.assets = @ \cup {k.n}]
      [] k.op = "bond" -> [w EXCEPT !.bond = @ + 1]
      [] k.op = "mint" -> [w EXCEPT !.items = @ \cup {k.n}]
      [] k.op = "raise" -> [w EXCEPT !.seats[k.n] = @ + 1]
      [] k.op = "lower" -> IF w.seats[k.n] = 0 THEN [w EXCEPT !.seats = Without(@, k.n)] ELSE [w EXCEPT !.seats[k.n] = @ - 1]
      [] k.op = "found" -> [w EXCEPT !.seats = With(@, k.n, 0), !.comms = @ \cup {k.n}]
      [] k.op = "join" -> [w EXCEPT !.users = @ \cup {k.n}]
      [] OTHER -> w
PApply(w, purse, k, pr, treasury) ==
    IF Entitled(k.by, Call(k)) /\ Possible(w, k) /\ Affords(purse, k)
    THEN [ok |-> TRUE, w |-> Paid(Effect(w, k, treasury), purse, k, pr)]
    ELSE [ok |-> FALSE, w |-> w]

\* r: [call, ok, got, pr, purse, treasury, pre, post]
Asked(r) ==
    LET c == <<r.call.do.p, r.call.do.f>>  o == r.call.by IN
    \/ Open(o, c)
    \/ Entitled(o, c) /\ r.got # "barred"
    \/ ~Entitled(o, c) /\ (IF Own(c) THEN r.got # "done" ELSE r.got = "barred")
Acted(r) == LET e == PApply(r.pre, r.purse, r.call, r.pr, r.treasury) IN r.ok = e.ok /\ r.post = e.w
C38(r) == CASE r.call.op = "list" -> TRUE [] r.call.op = "ask" -> Asked(r) [] OTHER -> Acted(r)
=============================================================================
