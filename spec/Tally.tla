-------------------------------- MODULE Tally --------------------------------
(* What a tally comes to: approval is the ayes over all votes cast, support    *)
(* the unmultiplied ayes over the electorate, in billionths.                   *)
EXTENDS Wide

(* Products beyond two words: numbers as lists of 15 bit digits, low first.    *)
DBase == 32768
Digits(a) == <<a[2] % DBase, a[2] \div DBase, a[1] % DBase, a[1] \div DBase>>
\* row * d + carry, digit by digit
RECURSIVE Row(_, _, _)
Row(ds, d, carry) == IF ds = <<>> THEN <<carry>> ELSE LET t == Head(ds) * d + carry IN <<t % DBase>> \o Row(Tail(ds), d, t \div DBase)
RECURSIVE Plus(_, _, _)
Plus(x, y, c) ==
    IF x = <<>> /\ y = <<>> THEN <<c>>
    ELSE LET t == (IF x = <<>> THEN 0 ELSE Head(x)) + (IF y = <<>> THEN 0 ELSE Head(y)) + c
         IN <<t % DBase>> \o Plus(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y), t \div DBase)
RECURSIVE Times(_, _)
Times(x, y) == IF y = <<>> THEN <<>> ELSE Plus(Row(x, Head(y), 0), <<0>> \o Times(x, Tail(y)), 0)
\* x <= y
At(x, i) == IF i > Len(x) THEN 0 ELSE x[i]
RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, i) == IF i = 0 THEN TRUE ELSE IF At(x, i) # At(y, i) THEN At(x, i) < At(y, i) ELSE LeqFrom(x, y, i - 1)
DLeq(x, y) == LeqFrom(x, y, IF Len(x) > Len(y) THEN Len(x) ELSE Len(y))
DLess(x, y) == ~DLeq(y, x)
Prod(a, b) == Times(Digits(a), Digits(b))

Billion == 1000000000
\* parts billionths are p/q rounded down; beyond a billion to within three billionths
Fraction(parts, p, q) ==
    IF WLeq(q, p) THEN parts = Billion
    ELSE LET e == IF WLeq(q, N(Billion)) THEN 0 ELSE 3
             low == IF parts < e THEN 0 ELSE parts - e
         IN /\ parts \in 0 .. Billion
            /\ DLeq(Prod(N(low), q), Prod(N(Billion), p))
            /\ DLess(Prod(N(Billion), p), Prod(N(parts + e + 1), q))

Approval(parts, ayes, nays) == Fraction(parts, ayes, WMax(N(1), WAdd(ayes, nays)))
Support(parts, bare, electorate) == Fraction(parts, bare, electorate)
\* known: an electorate of more units than fit 32 bits is taken for the largest that does
SupportOf32(parts, bare, electorate) == ~WLeq(electorate, U32Max) /\ Fraction(parts, bare, U32Max)

\* a tally set up on the real code: t is [me, elect, ayes, nays, bare]
TallyHolds(r) ==
    /\ Approval(r.app, r.t.ayes, r.t.nays)
    /\ Support(r.sup, r.t.bare, r.t.elect)
    /\ r.says = r.t.ayes
TallySig(r) ==
    IF Approval(r.app, r.t.ayes, r.t.nays) /\ SupportOf32(r.sup, r.t.bare, r.t.elect) /\ r.says = r.t.ayes THEN "electorate beyond 32 bits" ELSE ""
=============================================================================
