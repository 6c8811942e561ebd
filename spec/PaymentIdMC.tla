--------------------------- MODULE PaymentIdMC ---------------------------
(* A client holds an id, prints it, passes the text on (possibly cut short,  *)
(* extended or altered by one digit) and another client parses it.           *)
EXTENDS PaymentId, TLC
CONSTANT MaxText

VARIABLES id, text, got, touched
vars == <<id, text, got, touched>>

Texts == UNION {[1 .. n -> Digit] : n \in 0 .. MaxText}

Init == /\ id \in Ids
        /\ text = <<>> /\ got = NoId /\ touched = "unprinted"
PrintId == /\ touched = "unprinted"
         /\ text' = ToText(id) /\ touched' = "printed"
         /\ UNCHANGED <<id, got>>
Alter == /\ touched = "printed"
         /\ \/ \E i \in DOMAIN text : \E d \in Digit \ {text[i]} : text' = [text EXCEPT ![i] = d]
            \/ text # <<>> /\ text' = Tail(text)
            \/ text # <<>> /\ text' = SubSeq(text, 1, Len(text) - 1)
            \/ \E d \in Digit : text' = Append(text, d)
         /\ touched' = "altered" /\ UNCHANGED <<id, got>>
Read == /\ touched \in {"printed", "altered"}
        /\ got' = Parse(text)
        /\ touched' = IF touched = "printed" THEN "readback" ELSE "readaltered"
        /\ UNCHANGED <<id, text>>
Next == PrintId \/ Alter \/ Read
Spec == Init /\ [][Next]_vars

RoundTrip == touched = "readback" => got = id
NoConfusion == touched = "readaltered" => got # id     \* altered text is never this id
TextCanonical == got # NoId => ToText(got) = text
LongEnough == touched = "printed" => Len(text) >= SepAt /\ Len(text) <= MaxText

\* every text at all is either refused or the text of exactly one id
ASSUME \A t \in Texts : LET p == Parse(t) IN p = NoId \/ (p \in Ids /\ ToText(p) = t)
ASSUME Cardinality({ToText(i) : i \in Ids}) = Cardinality(Ids)
=============================================================================
