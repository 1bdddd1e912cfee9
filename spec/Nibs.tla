-------------------------------- MODULE Nibs --------------------------------
(***************************************************************************)
(* Keys as plain sequences over 0..15, and what every public operation of  *)
(* the implementation's packed key type must do on them.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bytes

MaxNibbles == 64

Min2(a, b) == IF a <= b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

RECURSIVE LcpFrom(_, _, _)
LcpFrom(a, b, i) ==
    IF i > Len(a) \/ i > Len(b) THEN i - 1
    ELSE IF a[i] # b[i] THEN i - 1 ELSE LcpFrom(a, b, i + 1)
\* length of the longest common prefix
Lcp(a, b) == LcpFrom(a, b, 1)

(* ---- nibbles and bytes ---- *)
NibsOfByte(b) == <<b \div 16, b % 16>>
\* big-endian bytes of a nibble sequence, padded on the left to whole bytes
PackBytes(s) ==
    LET e == IF Len(s) % 2 = 0 THEN s ELSE <<0>> \o s
    IN [i \in 1..(Len(e) \div 2) |-> 16 * e[2 * i - 1] + e[2 * i]]
UnpackBytes(b) == [i \in 1..(2 * Len(b)) |->
    IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[1] = 0 THEN StripZeros(Tail(s)) ELSE s

\* the padded conversion of the documentation: one leading zero if odd
PadToByte(s) == IF Len(s) % 2 = 1 THEN <<0>> \o s ELSE s

(* ---- compact / hex-prefix encoding (yellow paper, appendix C) ---- *)
HexPrefix(s, leaf) ==
    LET f == IF leaf THEN 2 ELSE 0
    IN IF Len(s) % 2 = 0 THEN <<16 * f>> \o PackBytes(s)
       ELSE <<16 * (f + 1) + s[1]>> \o PackBytes(Tail(s))

\* What decoding returns.  Deliberate deviation of the code from the yellow
\* paper, fixed by the repository's own tests: a terminator flag shows up as
\* the two extra nibbles 1, 0 at the end.
HexPrefixDecode(b) ==
    IF b = <<>> THEN [r |-> "err", k |-> <<>>]
    ELSE IF Len(b) > 33 THEN [r |-> "err", k |-> <<>>]
    ELSE LET f == b[1] \div 16
             rest == UnpackBytes(Tail(b))
             odd == IF f % 2 = 1 THEN <<b[1] % 16>> ELSE <<>>
             term == IF f \div 2 = 1 THEN <<1, 0>> ELSE <<>>
         IN IF f > 3 THEN [r |-> "err", k |-> <<>>]
            ELSE [r |-> "ok", k |-> odd \o rest \o term]

(***************************************************************************)
(* The operations.  Each takes the receiver s and arguments and returns    *)
(*   [r  |-> "ok" or "panic",                                              *)
(*    s  |-> the receiver afterwards (unchanged for non-mutating ones),    *)
(*    o  |-> the result: a sequence of nibble sequences,                   *)
(*    n  |-> a numeric result, 0 if there is none]                         *)
(***************************************************************************)
Panic(s) == [r |-> "panic", s |-> s, o |-> <<>>, n |-> 0]
Ok(s, o, n) == [r |-> "ok", s |-> s, o |-> o, n |-> n]

NibOp(op, s, t, a, b) ==
    CASE op = "get_nibble" -> IF a >= Len(s) THEN Panic(s) ELSE Ok(s, <<>>, s[a + 1])
      [] op = "pop_next_nibble_front" ->
            IF s = <<>> THEN Panic(s) ELSE Ok(Tail(s), <<>>, s[1])
      [] op = "pop_next_nibble_back" ->
            IF s = <<>> THEN Panic(s) ELSE Ok(SubSeq(s, 1, Len(s) - 1), <<>>, s[Len(s)])
      [] op = "get_next_nibbles" -> IF a > Len(s) THEN Panic(s) ELSE Ok(s, <<Take(s, a)>>, 0)
      [] op = "pop_nibbles_front" -> IF a > Len(s) THEN Panic(s) ELSE Ok(Drop(s, a), <<Take(s, a)>>, 0)
      [] op = "pop_nibbles_back" ->
            IF a > Len(s) THEN Panic(s)
            ELSE Ok(Take(s, Len(s) - a), <<Rev(Drop(s, Len(s) - a))>>, 0)
      [] op = "push_nibble_front" ->
            IF Len(s) >= MaxNibbles \/ a > 15 THEN Panic(s) ELSE Ok(<<a>> \o s, <<>>, 0)
      [] op = "push_nibble_back" ->
            IF Len(s) >= MaxNibbles \/ a > 15 THEN Panic(s) ELSE Ok(s \o <<a>>, <<>>, 0)
      [] op = "push_nibbles_front" ->
            IF Len(s) + Len(t) > MaxNibbles THEN Panic(s) ELSE Ok(t \o s, <<>>, 0)
      [] op = "get_nibble_range" ->
            IF b > Len(s) \/ a > b THEN Panic(s) ELSE Ok(s, <<SubSeq(s, a + 1, b)>>, 0)
      [] op = "truncate_n_nibbles_front" -> Ok(s, <<Drop(s, Min2(a, Len(s)))>>, 0)
      [] op = "truncate_n_nibbles_back" -> Ok(s, <<Take(s, Len(s) - Min2(a, Len(s)))>>, 0)
      [] op = "truncate_n_nibbles_front_mut" -> Ok(Drop(s, Min2(a, Len(s))), <<>>, 0)
      [] op = "truncate_n_nibbles_back_mut" -> Ok(Take(s, Len(s) - Min2(a, Len(s))), <<>>, 0)
      [] op = "is_empty" -> Ok(s, <<>>, IF s = <<>> THEN 1 ELSE 0)
      [] op = "nibbles_are_identical_up_to_smallest_count" ->
            Ok(s, <<>>, IF IsPfx(s, t) \/ IsPfx(t, s) THEN 1 ELSE 0)
      [] op = "split_at_idx" -> IF a > Len(s) THEN Panic(s) ELSE Ok(s, <<Take(s, a), Drop(s, a)>>, 0)
      [] op = "split_at_idx_prefix" -> IF a > Len(s) THEN Panic(s) ELSE Ok(s, <<Take(s, a)>>, 0)
      [] op = "split_at_idx_postfix" -> IF a > Len(s) THEN Panic(s) ELSE Ok(s, <<Drop(s, a)>>, 0)
      [] op = "merge_nibble" ->
            IF Len(s) >= MaxNibbles \/ a > 15 THEN Panic(s) ELSE Ok(s, <<s \o <<a>>>>, 0)
      [] op = "merge_nibbles" ->
            IF Len(s) + Len(t) > MaxNibbles THEN Panic(s) ELSE Ok(s, <<s \o t>>, 0)
      [] op = "reverse" -> Ok(s, <<Rev(s)>>, 0)
      [] op = "find_differing_different_lengths" -> Ok(s, <<>>, Lcp(s, t))
      [] op = "find_differing_equal_lengths" ->
            IF Len(s) # Len(t) THEN Panic(s) ELSE Ok(s, <<>>, Lcp(s, t))
      [] op = "min_bytes" -> Ok(s, <<>>, (Len(s) + 1) \div 2)
      [] op = "from_nibble" -> IF a > 15 THEN Panic(s) ELSE Ok(s, <<<<a>>>>, 0)
      [] op = "eq" -> Ok(s, <<>>, IF s = t THEN 1 ELSE 0)

NibOps0 == {"pop_next_nibble_front", "pop_next_nibble_back", "is_empty", "reverse", "min_bytes"}
NibOps1 == {"get_nibble", "get_next_nibbles", "pop_nibbles_front", "pop_nibbles_back",
            "push_nibble_front", "push_nibble_back",
            "truncate_n_nibbles_front", "truncate_n_nibbles_back",
            "truncate_n_nibbles_front_mut", "truncate_n_nibbles_back_mut",
            "split_at_idx", "split_at_idx_prefix", "split_at_idx_postfix",
            "merge_nibble", "from_nibble"}
NibOps2 == {"get_nibble_range"}
NibOpsT == {"push_nibbles_front", "nibbles_are_identical_up_to_smallest_count", "merge_nibbles",
            "find_differing_different_lengths", "find_differing_equal_lengths", "eq"}
NibOpNames == NibOps0 \cup NibOps1 \cup NibOps2 \cup NibOpsT
(* ------------------------------------------------------------------------ *)
(* Conversions.  Text is a sequence of character codes, an integer is given  *)
(* by the nibbles of its usual notation (with or without leading zeros).     *)
(* ------------------------------------------------------------------------ *)
Digit(n, up) == IF n < 10 THEN 48 + n ELSE IF up THEN 55 + n ELSE 87 + n
Show(s, up) == <<48, 120>> \o [i \in 1..Len(s) |-> Digit(s[i], up)]

\* the nibble a character stands for, 16 if it is not a hex digit
OfChar(c) == IF c \in 48..57 THEN c - 48
             ELSE IF c \in 97..102 THEN c - 87
             ELSE IF c \in 65..70 THEN c - 55 ELSE 16

\* the most digits text can have at all (the width of the packed integer)
MaxDigits == 128

Good(o) == [r |-> "ok", o |-> o]
Bad == [r |-> "err", o |-> <<>>]

Parse(c) ==
    LET d == IF Len(c) >= 2 /\ c[1] = 48 /\ c[2] = 120 THEN Drop(c, 2) ELSE c
        n == [i \in 1..Len(d) |-> OfChar(d[i])]
    IN IF Len(d) > MaxDigits \/ \E i \in 1..Len(d) : n[i] = 16 THEN Bad ELSE Good(n)

\* the longest byte string accepted; 33 rather than 32 bytes as the error
\* message says (the comment says 32; neither is relied on)
MaxBytes == 33
FromBytes(b) == IF b = <<>> \/ Len(b) > MaxBytes THEN Bad ELSE Good(UnpackBytes(b))

\* bits of the integer types
IntOps == [u8 |-> 2, u16 |-> 4, u32 |-> 8, u64 |-> 16, u128 |-> 32, u256 |-> 64, u512 |-> 64]

KeyOps == {"display", "lowerhex", "upperhex", "bytes_be", "try_into_u256", "serde"}
ByteOps == {"from_bytes_be", "from_bytes_le"}
HashOps == {"from_h256_be", "from_h256_le"}
TextOps == {"from_str"}

Conv(op, s) ==
    CASE op \in {"display", "lowerhex"} -> Good(Show(s, FALSE))
      [] op = "upperhex" -> Good(Show(s, TRUE))
      [] op = "bytes_be" -> Good(PackBytes(s))
      \* the number denoted by the nibbles, as 32 bytes
      [] op = "try_into_u256" -> Good(PackBytes([i \in 1..(64 - Len(s)) |-> 0] \o s))
      [] op = "serde" -> Good(s)
      [] op \in {"from_bytes_be", "from_h256_be"} -> FromBytes(s)
      [] op \in {"from_bytes_le", "from_h256_le"} -> FromBytes(Rev(s))
      [] op = "from_str" -> Parse(s)
      [] op \in {"to_nibbles", "from"} -> Good(StripZeros(s))
      [] op = "to_nibbles_byte_padded" -> Good(PadToByte(StripZeros(s)))
      [] op = "get_num_nibbles_in_key" -> Good(<<Len(StripZeros(s))>>)
      [] op = "hex_prefix" -> Good(HexPrefix(s, FALSE))
      [] op = "hex_prefix_leaf" -> Good(HexPrefix(s, TRUE))
      [] op = "from_hex_prefix" ->
            LET d == HexPrefixDecode(s) IN IF d.r = "err" THEN Bad ELSE Good(d.k)

(* ------------------------------ laws ------------------------------------ *)
\* what the conversions owe each other on any key
KeyLaws(s) ==
    /\ Parse(Show(s, FALSE)) = Good(s)
    /\ Parse(Show(s, TRUE)) = Good(s)
    /\ Parse(Drop(Show(s, TRUE), 2)) = Good(s)
    /\ UnpackBytes(PackBytes(s)) = PadToByte(s)
    /\ s # <<>> => FromBytes(PackBytes(s)) = Good(PadToByte(s))
    /\ Conv("to_nibbles", s).o = StripZeros(s)
    /\ Len(Conv("to_nibbles_byte_padded", s).o) % 2 = 0
    /\ Len(s) = 64 => PackBytes(s) = Conv("try_into_u256", s).o
    \* text has the digits of its case only
    /\ \A i \in 3..(Len(s) + 2) : /\ Show(s, TRUE)[i] \in 48..57 \cup 65..70
                                  /\ Show(s, FALSE)[i] \in 48..57 \cup 97..102
    \* a number is its digits from the first that is not zero
    /\ LET z == Conv("to_nibbles", s).o
           m == Len(s) - Len(z)
       IN /\ z = <<>> \/ z[1] # 0
          /\ m >= 0 /\ Drop(s, m) = z /\ \A i \in 1..m : s[i] = 0
    \* the two orders of bytes mirror each other
    /\ \A p \in {PackBytes(s)} : Conv("from_bytes_le", Rev(p)) = Conv("from_bytes_be", p)

HexPrefixLaws(s) ==
    /\ HexPrefixDecode(HexPrefix(s, FALSE)) = [r |-> "ok", k |-> s]
    /\ HexPrefixDecode(HexPrefix(s, TRUE)) = [r |-> "ok", k |-> s \o <<1, 0>>]
    /\ Len(HexPrefix(s, TRUE)) = Len(s) \div 2 + 1
    /\ HexPrefix(s, TRUE)[1] = HexPrefix(s, FALSE)[1] + 32

\* what the sequence operations owe each other
OpLaws(s, t) ==
    LET j == Ok(s, <<s \o t>>, 0) IN
    /\ NibOp("merge_nibbles", s, t, 0, 0) = IF Len(s) + Len(t) > 64 THEN Panic(s) ELSE j
    /\ Rev(Rev(s)) = s
    /\ Lcp(s, t) = Lcp(t, s)
    /\ Take(s, Lcp(s, t)) = Take(t, Lcp(s, t))
    /\ (Lcp(s, t) = Min2(Len(s), Len(t))) <=> (IsPfx(s, t) \/ IsPfx(t, s))
    /\ \A i \in 0..Len(s) : Take(s, i) \o Drop(s, i) = s
    \* the first place in which two keys differ
    /\ LET i == NibOp("find_differing_different_lengths", s, t, 0, 0).n IN
       /\ i <= Len(s) /\ i <= Len(t) /\ \A h \in 1..i : s[h] = t[h]
       /\ i < Len(s) /\ i < Len(t) => s[i + 1] # t[i + 1]
       /\ (NibOp("nibbles_are_identical_up_to_smallest_count", s, t, 0, 0).n = 1) <=> (i = Min2(Len(s), Len(t)))
       /\ (NibOp("eq", s, t, 0, 0).n = 1) <=> (i = Len(s) /\ i = Len(t))
       /\ Len(s) = Len(t) => NibOp("find_differing_equal_lengths", s, t, 0, 0).n = i
    \* appending is putting the other one in front
    /\ LET m == NibOp("merge_nibbles", s, t, 0, 0)
           f == NibOp("push_nibbles_front", t, s, 0, 0)
       IN m.r = f.r /\ (m.r = "ok" => m.o[1] = f.s)

\* what the operations on one key owe to its places
PlaceLaws(s) ==
    LET n == Len(s)
        op(name, a) == NibOp(name, s, <<>>, a, 0)
    IN /\ n > 0 => LET f == op("pop_next_nibble_front", 0)
                       b == op("pop_next_nibble_back", 0)
                   IN <<f.n>> \o f.s = s /\ b.s \o <<b.n>> = s
       /\ n < 64 => \A a \in 0..15 :
            LET f == NibOp("pop_next_nibble_front", op("push_nibble_front", a).s, <<>>, 0, 0)
                b == NibOp("pop_next_nibble_back", op("push_nibble_back", a).s, <<>>, 0, 0)
            IN /\ f.n = a /\ f.s = s /\ b.n = a /\ b.s = s
               /\ op("merge_nibble", a).o[1] = op("push_nibble_back", a).s
       /\ \A i \in 1..n :
            /\ op("get_nibble", i - 1).n = s[i]
            /\ NibOp("get_nibble_range", s, <<>>, i - 1, i).o[1] = <<s[i]>>
            /\ op("reverse", 0).o[1][i] = s[n + 1 - i]
       /\ \A i \in 0..n :
            LET x == op("split_at_idx", i).o
                back == op("pop_nibbles_back", n - i)
                front == op("pop_nibbles_front", i)
            IN /\ Len(x) = 2 /\ Len(x[1]) = i /\ x[1] \o x[2] = s
               /\ op("split_at_idx_prefix", i).o[1] = x[1] /\ op("split_at_idx_postfix", i).o[1] = x[2]
               /\ op("get_next_nibbles", i).o[1] = x[1]
               /\ front.o[1] = x[1] /\ front.s = x[2]
               /\ back.s = x[1] /\ \A j \in 1..(n - i) : back.o[1][j] = s[n + 1 - j]
               /\ op("truncate_n_nibbles_front", i).o[1] = x[2] /\ op("truncate_n_nibbles_front_mut", i).s = x[2]
               /\ op("truncate_n_nibbles_back", n - i).o[1] = x[1]
               /\ op("truncate_n_nibbles_back_mut", n - i).s = x[1]
               /\ NibOp("get_nibble_range", s, <<>>, i, n).o[1] = x[2]
               /\ NibOp("get_nibble_range", s, <<>>, 0, i).o[1] = x[1]
       /\ op("min_bytes", 0).n = Len(PackBytes(s))
=============================================================================
