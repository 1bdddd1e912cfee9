------------------------------ MODULE ConvFlaws -----------------------------
(* Wrong versions of the conversions of keys, to be refuted by ConvMC. *)
EXTENDS ConvMC

DigitSmall(n, up) == IF n < 10 THEN 48 + n ELSE 87 + n
StripOne(k) == IF k # <<>> /\ k[1] = 0 THEN Tail(k) ELSE k
PackOnRight(k) ==
    LET e == IF Len(k) % 2 = 0 THEN k ELSE k \o <<0>>
    IN [i \in 1..(Len(e) \div 2) |-> 16 * e[2 * i - 1] + e[2 * i]]
ShowTight(k, up) ==
    LET z == StripZeros(k) IN <<48, 120>> \o [i \in 1..Len(z) |-> Digit(z[i], up)]

\* the odd nibble is put behind a flag of its own
PrefixPadded(k, leaf) ==
    LET f == IF leaf THEN 2 ELSE 0
    IN IF Len(k) % 2 = 0 THEN <<16 * f>> \o PackBytes(k) ELSE <<16 * (f + 1)>> \o PackBytes(k)
PrefixNoLeaf(k, leaf) ==
    IF Len(k) % 2 = 0 THEN <<0>> \o PackBytes(k) ELSE <<16 + k[1]>> \o PackBytes(Tail(k))
\* flags above three are taken for smaller ones
DecodeAnyFlag(b) ==
    IF b = <<>> \/ Len(b) > 33 THEN [r |-> "err", k |-> <<>>]
    ELSE LET f == (b[1] \div 16) % 4
             rest == UnpackBytes(Tail(b))
             odd == IF f % 2 = 1 THEN <<b[1] % 16>> ELSE <<>>
             term == IF f \div 2 = 1 THEN <<1, 0>> ELSE <<>>
         IN [r |-> "ok", k |-> odd \o rest \o term]
=============================================================================
