-------------------------------- MODULE ConvMC -------------------------------
(***************************************************************************)
(* Conversions of keys: every conversion of every given input, together    *)
(* with the laws that tie the conversions to each other.                   *)
(***************************************************************************)
EXTENDS Nibs, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.INPUTS)
Range(f) == {f[i] : i \in DOMAIN f}
Words(A, n) == UNION {[1..i -> A] : i \in 0..n}

HexPrefixOnly == IOEnv.WHICH = "C17"

Keys == Words(Range(In.alphabet), In.bound) \cup Range(In.keys)
IntKeys == {k \in Keys : Len(k) <= 64}
Flagged == {<<f>> \o w : f \in 0..255, w \in Words(Range(In.bytes_alphabet), In.bytes_bound)}
           \cup {<<>>} \cup Range(In.encoded)

VARIABLES op, ty, x
vars == <<op, ty, x>>

Case(ops, types, xs) == op \in ops /\ ty \in types /\ x \in xs

\* Decoder input that no encoder produces and nothing defines: a padding
\* nibble other than zero, and a 65th nibble.
Undefined(b) == b # <<>> /\ Len(b) <= 33 /\
                \/ b[1] \in 1..15 \/ b[1] \in 33..47
                \/ Len(b) = 33 /\ (b[1] \div 16) % 2 = 1

Init ==
    IF HexPrefixOnly
    THEN \/ Case({"hex_prefix", "hex_prefix_leaf"}, {""}, Keys)
         \/ Case({"from_hex_prefix"}, {""}, {b \in Flagged : ~Undefined(b)})
    ELSE \/ Case(KeyOps, {""}, Keys)
         \/ Case(TextOps, {""}, Range(In.texts))
         \/ Case(ByteOps, {""}, Range(In.bytes))
         \/ Case(HashOps, {""}, Range(In.hashes))
         \/ \E t \in DOMAIN IntOps :
               Case({"to_nibbles", "from", "to_nibbles_byte_padded"} \cup
                    (IF t = "u512" THEN {"get_num_nibbles_in_key"} ELSE {}), {t},
                    {k \in IntKeys : Len(k) <= IntOps[t]})

Next == UNCHANGED vars

IsKeyInput == op \in KeyOps \cup {"hex_prefix", "hex_prefix_leaf", "to_nibbles"}
Laws == IsKeyInput => IF HexPrefixOnly THEN HexPrefixLaws(x) ELSE KeyLaws(x)

\* decoding is injective up to the terminator, and total
Decoding == op = "from_hex_prefix" =>
    LET d == HexPrefixDecode(x) IN
    d.r = "ok" => \/ HexPrefix(d.k, FALSE) = x
                  \/ HexPrefix(Take(d.k, Len(d.k) - 2), TRUE) = x

Emit == LET c == Conv(op, x)
        IN PrintT(ToJson([q |-> "K", op |-> op, ty |-> ty, x |-> x, r |-> c.r, o |-> c.o]))
=============================================================================
