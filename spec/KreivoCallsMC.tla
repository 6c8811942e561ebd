--------------------------- MODULE KreivoCallsMC ---------------------------
EXTENDS KreivoCalls, TLC, Json, IOUtils, CSV

CONSTANTS Kinds, Ways, Proxies, Depth
VARIABLES s, last, hist
vars == <<s, last, hist>>

Plain(p, f) == [p |-> p, f |-> f]
Acting(p, f) == [p |-> p, f |-> f, real |-> TRUE]
Deeds == {Acting("Balances", "transfer_allow_death"), Acting("Balances", "transfer_keep_alive"), Acting("Assets", "transfer"),
          Acting("Assets", "mint"), Acting("Assets", "burn"), Plain("System", "remark"), Plain("CollatorSelection", "leave_intent"),
          Plain("Assets", "set_metadata"), Plain("Proxy", "reject_announcement"), Plain("Proxy", "remove_proxies"), Plain("Payments", "pay")}
Proxying == [p : {"Proxy"}, f : {"add_proxy", "remove_proxy"}, real : {TRUE}, d : {2, 3}, ty : Kinds]
Calls == [op : {"own"}, by : {1}, do : Proxying]
    \cup [op : {"use"}, by : {2, 3}, of : {1}, as : Kinds \cup {""}, in : Ways, do : Deeds \cup {d \in Proxying : d.d = 3}]
    \cup [op : {"inside"}, by : {2}, in : Ways, do : Deeds]
Init == s = [prox |-> {}, nat |-> <<100, 100, 100, 100>>, ast |-> <<100, 100, 100, 100>>] /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls : \E e \in CApply(s, k) :
            /\ Cardinality(e.w.prox) <= Proxies
            /\ s' = e.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> e.ok, got |-> IF e.held THEN "filtered" ELSE "ok", may |-> FALSE, pre |-> s, post |-> e.w]
Spec == Init /\ [][Next]_vars
View == <<s.prox>>
\* what can be done as account 1 by delegate n, directly or through whom it can make a delegate
Reach(n) == {ty \in Kinds : [of |-> 1, d |-> n, ty |-> ty] \in s.prox}
\* no delegate's power grows by its own doing
NoEscalation == [][last'.call.op = "use" =>
    \A p \in last'.post.prox \ last'.pre.prox : \E ty \in Held(last'.pre, last'.call.by, 1, "") :
        Above(ty, p.ty) /\ \A d \in Deeds : Through(p.ty, "", d) => Through(ty, "", d)]_vars
\* funds only leave where the type says so
Guarded == [][(last'.call.op = "use" /\ (last'.post.nat[1] < last'.pre.nat[1])) => "Any" \in Held(last'.pre, last'.call.by, 1, last'.call.as)]_vars
EdgesHold == [][C27(last') /\ C33(last')]_vars
\* the ranking is a partial order, and who ranks above may do all that who ranks below may
Ranked == /\ \A a \in Types : Above(a, a)
          /\ \A a, b \in Types : Above(a, b) /\ Above(b, a) => a = b
          /\ \A a, b, c \in Types : Above(a, b) /\ Above(b, c) => Above(a, c)
          /\ \A a, b \in Types : Above(a, b) => \A d \in Deeds : May(b, d.p, d.f) => May(a, d.p, d.f)
Apart == Owning \cap Managing = {}

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "calls", prox |-> <<>>]])>>, IOEnv.OUT)
=============================================================================
