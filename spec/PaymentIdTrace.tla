--------------------------- MODULE PaymentIdTrace ---------------------------
(* Judges what the real code did, one record per use, with the operators of  *)
(* PaymentId at the real constants.                                          *)
EXTENDS PaymentId, Judge


\* the base58 alphabet as character codes
Alphabet ==
    LET run(a, b) == [i \in 1 .. b - a + 1 |-> a + i - 1]
    IN run(49, 57) \o run(65, 72) \o run(74, 78) \o run(80, 90) \o run(97, 107) \o run(109, 122)
Hyphen == 45
DigitOf == [c \in {Alphabet[i] : i \in DOMAIN Alphabet} |-> (CHOOSE i \in DOMAIN Alphabet : Alphabet[i] = c) - 1]
Chars(digits) == [i \in DOMAIN digits |-> Alphabet[digits[i] + 1]]

Plain(id) == Chars(ToText(id))
Pretty(id) == LET p == Plain(id) IN SubSeq(p, 1, SepAt) \o <<Hyphen>> \o SubSeq(p, SepAt + 1, Len(p))

RECURSIVE FirstHyphen(_, _)
FirstHyphen(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = Hyphen THEN i ELSE FirstHyphen(t, i + 1)
Drop(t, i) == IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))

\* long texts cannot be ids: base58 of eight bytes has at most eleven digits
ParseText(t) ==
    LET u == Drop(t, FirstHyphen(t, 1))
    IN IF Len(u) > 11 \/ \E i \in DOMAIN u : u[i] \notin DOMAIN DigitOf
       THEN NoId
       ELSE Parse([i \in DOMAIN u |-> DigitOf[u[i]]])

C11(r) ==
    CASE r.k = "num" ->
           /\ ~r.panic
           /\ r.back = r.n /\ r.bytes = r.n /\ r.tobytes = r.n /\ r.enc = r.n /\ r.dec = r.n
           /\ r.block = BlockOf(r.n) /\ r.idx = IndexOf(r.n)
      [] r.k = "tri" ->
           /\ ~r.panic
           /\ r.n = OfTriple(r.block, r.idx, r.extra)
           /\ r.rblock = r.block /\ r.ridx = SubSeq(r.idx, 1, 2) \o <<0, 0>>
      [] r.k = "pair" -> ~r.panic /\ r.eq = (r.a = r.b) /\ (r.na = r.nb) = (r.a = r.b)
      [] r.k = "dec" ->
           /\ ~r.panic
           /\ r.ok = (Len(r.in) >= Width)
           /\ r.ok => r.n = SubSeq(r.in, 1, Width) /\ r.left = Len(r.in) - Width
      [] OTHER -> TRUE

C12(r) ==
    CASE r.k = "print" ->
           /\ ~r.panic
           /\ r.plain = Plain(r.n) /\ r.pretty = Pretty(r.n)
           /\ r.encplain = r.plain /\ r.encpretty = r.pretty
           /\ r.parsedplain = r.n /\ r.parsedpretty = r.n
      [] r.k = "parse" ->
           LET id == ParseText(r.text)
               h == FirstHyphen(r.text, 1)
           IN /\ ~r.panic
              /\ IF id = NoId THEN ~r.ok
                 ELSE IF h \in {0, SepAt + 1} THEN r.ok /\ r.n = id
                 ELSE r.ok => r.n = id
              /\ r.new = IF r.ok THEN r.n ELSE Zeros(Width)
      [] OTHER -> TRUE

Holds(r) == IF IOEnv.PROP = "C11" THEN C11(r) ELSE C12(r)
ASSUME Verdict(Recs, Holds)
=============================================================================
