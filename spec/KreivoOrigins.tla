--------------------------- MODULE KreivoOrigins ---------------------------
(* The authorities of the kreivo runtime: root, nobody, signed accounts,     *)
(* communities, the collective's special powers and other chains.            *)
EXTENDS KreivoAccounts

Root == [o |-> "root"]
None == [o |-> "none"]
Signed(a) == [o |-> "signed", a |-> a]
Community(c) == [o |-> "community", c |-> c]
MembershipsPower == [o |-> "memberships"]
Canceller == [o |-> "canceller"]
Killer == [o |-> "killer"]
Relay == [o |-> "relay"]
Sibling(p) == [o |-> "sibling", p |-> p]

Powers == {MembershipsPower, Canceller, Killer}
Chains == {Relay, Sibling(1000), Sibling(2000)}
=============================================================================
