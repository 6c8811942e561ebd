----------------------------- MODULE PaymentId -----------------------------
(* The payment id of virto-common: an eight byte identifier                  *)
(*     prefix[2] . extrinsic index[2, low byte first] . block[4, low first]  *)
(* its number (the bytes read low byte first), its on-chain encoding (those  *)
(* bytes) and its base58 text, plain or with a separator after five digits.  *)
(*                                                                           *)
(* Everything is over sequences of naturals, so the same operators are used  *)
(* with small bases (checked exhaustively, PaymentIdMC) and with the real    *)
(* constants 256/8/58 on values recorded from the code (PaymentIdTrace).     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS ByteBase,  \* values per byte
          Width,     \* bytes in an id
          TextBase,  \* digits of the text form
          SepAt      \* digits before the separator in the pretty form

Byte == 0 .. ByteBase - 1
Digit == 0 .. TextBase - 1
Ids == [1 .. Width -> Byte]

(* ---- base conversion as base58 defines it: one leading zero digit per     *)
(* leading zero byte, then the number in the other base.                     *)
RECURSIVE LeadingZeros(_)
LeadingZeros(s) == IF s = <<>> \/ Head(s) # 0 THEN 0 ELSE 1 + LeadingZeros(Tail(s))

RECURSIVE MulAdd(_, _, _, _, _)      \* ds low digit first; ds * m + carry
MulAdd(ds, i, m, carry, base) ==
    IF i <= Len(ds)
    THEN LET v == ds[i] * m + carry
         IN MulAdd([ds EXCEPT ![i] = v % base], i + 1, m, v \div base, base)
    ELSE IF carry = 0 THEN ds
    ELSE MulAdd(Append(ds, carry % base), i + 1, m, carry \div base, base)

RECURSIVE Accum(_, _, _, _, _)
Accum(s, i, ds, from, to) ==
    IF i > Len(s) THEN ds ELSE Accum(s, i + 1, MulAdd(ds, 1, from, s[i], to), from, to)

Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Zeros(n) == [i \in 1 .. n |-> 0]

Conv(s, from, to) ==
    LET z == LeadingZeros(s)
        rest == SubSeq(s, z + 1, Len(s))
    IN Zeros(z) \o Rev(Accum(rest, 1, <<>>, from, to))

ToText(id) == Conv(id, ByteBase, TextBase)

NoId == <<"none">>
Parse(digits) ==                     \* an id, or NoId
    LET b == Conv(digits, TextBase, ByteBase)
    IN IF Len(b) = Width THEN b ELSE NoId

(* ---- forms ---- *)
OfTriple(block, index, extra) ==     \* byte sequences, low byte first
    SubSeq(extra, 1, 2) \o SubSeq(index, 1, 2) \o block
BlockOf(id) == SubSeq(id, 5, 8)
IndexOf(id) == SubSeq(id, 3, 4) \o <<0, 0>>
=============================================================================
