--------------------------- MODULE KreivoSchedMC ---------------------------
EXTENDS KreivoSched, TLC, Json, IOUtils, CSV, SequencesExt

CONSTANTS Tasks, Depth
VARIABLES s, last, hist
vars == <<s, last, hist>>

Authorities == <<Root, None, Signed(User(1)), Signed(User(2)), Signed(CommunityAccount(5)), Community(5), Community(6),
    MembershipsPower, Canceller, Killer, Relay, Sibling(1000), Sibling(2000), Signed(Treasury), Community(0)>>
Cfg == [fam |-> "sched", who |-> Authorities]
O == DOMAIN Authorities
Calls(w) ==
    (IF Cardinality(w.tasks) < Tasks THEN [op : {"put", "put!"}, n : {Cardinality(w.tasks) + 1}, o : O, at : {1, 5}] ELSE {})
    \cup (IF w.tasks = {} THEN [op : {"cmp"}, o : O, p : O] ELSE {})
    \cup [op : {"drop", "drop!"}, n : 1 .. 2, o : O]
    \cup [op : {"dropat"}, at : {5}, i : 0 .. 1, o : O]
Init == s = [blk |-> 1, tasks |-> {}] /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls(s) :
            LET r == SApply(Cfg, s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [cfg |-> Cfg, call |-> k, ok |-> r.ok, pre |-> s, post |-> r.w,
                        cmp |-> IF k.op = "cmp" THEN Compare(Cfg, k.o, k.p) ELSE ""]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C32(last')]_vars
\* comparing authorities is an order that only root stands out of
Ordered == \A o, p \in O : /\ Compare(Cfg, o, p) = "equal" <=> o = p
                           /\ Compare(Cfg, o, p) = "greater" => Compare(Cfg, p, o) = "none"
                           /\ Compare(Cfg, o, p) = "greater" => o = 1
Distinct == \A t, v \in s.tasks : t # v => (t.n # v.n /\ <<t.at, t.i>> # <<v.at, v.i>>)

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> Cfg])>>, IOEnv.OUT)
=============================================================================
