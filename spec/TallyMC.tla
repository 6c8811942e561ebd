------------------------------- MODULE TallyMC -------------------------------
(* Votes come one by one; what approval and support come to, at the scale of   *)
(* Parts parts to a whole, moves the way the property says. Every tally over   *)
(* an alphabet of large and small numbers is written out, to be set up on the  *)
(* real code.                                                                  *)
EXTENDS Tally, TLC, Json, IOUtils, CSV

CONSTANTS Parts, Most, Values, Elects

VARIABLES ayes, nays, bare, elect
vars == <<ayes, nays, bare, elect>>
Of(p, q) == IF p >= q THEN Parts ELSE (p * Parts) \div q
App(a, n) == Of(a, IF a + n > 1 THEN a + n ELSE 1)
Init == ayes = 0 /\ nays = 0 /\ bare = 0 /\ elect \in 0 .. Most
Next == \E times \in 0 .. 2, units \in 1 .. 2 :
    \/ ayes + times * units <= Most /\ bare + units <= Most /\ ayes' = ayes + times * units /\ bare' = bare + units /\ UNCHANGED <<nays, elect>>
    \/ nays + times * units <= Most /\ nays' = nays + times * units /\ UNCHANGED <<ayes, bare, elect>>
Spec == Init /\ [][Next]_vars
Whole == App(ayes, nays) \in 0 .. Parts /\ Of(bare, elect) \in 0 .. Parts /\ (ayes > 0 /\ nays = 0 => App(ayes, nays) = Parts)
Moves == [][ /\ bare' > bare => App(ayes', nays') >= App(ayes, nays) /\ Of(bare', elect) >= Of(bare, elect)
             /\ nays' > nays => App(ayes', nays') <= App(ayes, nays) /\ Of(bare', elect) = Of(bare, elect) ]_vars

\* the arithmetic of wide numbers agrees with the plain one
ASSUME \A p, q \in 0 .. 40 : q > 0 /\ p < q => \A d \in -2 .. 2 :
    LET f == (p * 1000) \div q IN f * 1000000 + d >= 0 =>
        Fraction(f * 1000000 + d, N(p), N(q)) = (f * 1000000 + d = f * 1000000 + (((p * 1000) % q) * 1000000) \div q)
ASSUME \A a, b \in {0, 1, 2, 77, 32766, 32767} : DLeq(Prod(N(a), N(b)), Digits(N(a * b))) /\ DLeq(Digits(N(a * b)), Prod(N(a), N(b)))

Small == [me : {"std", "rank", "native", "asset"}, ayes : Values, nays : Values, bare : Values, elect : Elects]
Numbers == <<N(0), N(1), N(2), N(3), N(7), N(333333333), N(999999999), N(1000000000), N(1000000001), <<1, 1073741823>>, <<2, 0>>, <<3, 5>>, <<3, 1073741822>>, U32Max,
             <<4, 0>>, <<7, 1073741823>>, <<1000000, 3>>, <<1073741823, 1073741823>>>>
Rows == {[me |-> t.me, ayes |-> Numbers[t.ayes], nays |-> Numbers[t.nays], bare |-> Numbers[t.bare], elect |-> Numbers[t.elect]] :
            t \in {t \in Small : t.me \in {"std", "rank"} => t.elect <= 14}}
Emit == "OUT" \in DOMAIN IOEnv => \A t \in Rows : CSVWrite("%1$s", <<ToJson(t)>>, IOEnv.OUT)
ASSUME Emit
=============================================================================
