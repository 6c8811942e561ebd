--------------------------- MODULE KreivoLoginMC ---------------------------
EXTENDS KreivoLogin, TLC, Json, IOUtils, CSV

CONSTANTS Last,        \* last block looked at
          Depth

VARIABLES s, last, hist
vars == <<s, last, hist>>

Shown(cx) == {cx, cx + 1, cx - 1, 0, -1, -2, -3, -4, -5}
Proofs == {[cx |-> x, ch |-> y, au |-> z] : x \in 0 .. Last + 2, y \in Shown(Last) \cup 0 .. Last, z \in BOOLEAN}
Tried == {p \in Proofs : (p.ch \in Shown(p.cx)) /\ (p.au \/ p.ch = p.cx)}
With(f, p) == [op |-> f.op, u |-> f.u, d |-> f.d, k |-> f.k, cx |-> p.cx, ch |-> p.ch, au |-> p.au]
Forms(w) ==
    [op : {"reg"}, u : {1, 2}, d : {1}, k : {1}] \cup [op : {"auth"}, u : {1, 3}, d : {1}, k : {2}]
    \cup [op : {"disp"}, u : {1}, d : {1, 2}, k : {3}]
Calls(w) ==
    {With(f, p) : f \in Forms(w), p \in Tried}
    \cup (IF w.blk < Last THEN {[op |-> "next", n |-> 1]} ELSE {})
    \cup {[op |-> "sess", k |-> x] : x \in {2, 3}}
    \cup {[op |-> "auth", u |-> 1, d |-> 1, k |-> 2, cx |-> w.blk - 1, ch |-> w.blk - 1, au |-> TRUE, dur |-> 1]}

Init == s = [blk |-> 1, dev |-> {}, key |-> {}] /\ last = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in Calls(s) :
            LET r == LApply(s, k) IN
            /\ s' = r.w /\ hist' = Append(hist, k)
            /\ last' = [call |-> k, ok |-> r.ok, as |-> r.as, pre |-> s, post |-> r.w]
Spec == Init /\ [][Next]_vars
View == s
EdgesHold == [][C29(last')]_vars
\* nobody gets a key without having had a device, nor for longer than allowed
KeysOfUsers == \A x \in s.key : Registered(s, x.u) /\ x.t <= s.blk + Longest
\* what is good to log in with was not known before the last few blocks
Fresh == \A n \in Recent(s) : n < s.blk /\ n >= s.blk - Window

Emit == "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([cfg |-> 0, path |-> hist'])>>, IOEnv.OUT)
ASSUME "OUT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([key |-> 0, world |-> [fam |-> "login", blk |-> 1]])>>, IOEnv.OUT)
=============================================================================
