-------------------------------- MODULE NibMC --------------------------------
(***************************************************************************)
(* One key under arbitrary operations: every operation with every argument *)
(* around its limits, from every key over a small alphabet up to a bound   *)
(* and from given keys of any length up to 64.                             *)
(***************************************************************************)
EXTENDS Nibs, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.INPUTS)

Range(f) == {f[i] : i \in DOMAIN f}
Words(A, n) == UNION {[1..i -> A] : i \in 0..n}
Short == Words(Range(In.alphabet), In.bound)
Long == Range(In.seeds)
\* one key of every length: every position, every range, every cut
Ladder == Range(In.ladder)
Seeds == Short \cup Long \cup Ladder
Others == Words(Range(In.alphabet), In.bound2) \cup Range(In.others)

\* Stand-ins for numbers TLC cannot represent: 2^64-1, 2^62, 2^63.
Huge == {1000001, 1000002, 1000003}

Counts(s) == {0, 1, 2, Len(s) \div 2, Len(s), Len(s) + 1, 31, 32, 33, 63, 64, 65, 128, 129}
             \cup {i \in 0..Len(s) : Len(s) - i \in {1, 2} \/ s \in Ladder} \cup Huge
NibArgs == 0..17 \cup {32, 128, 240, 255}
IsNibArg == {"push_nibble_front", "push_nibble_back", "merge_nibble", "from_nibble"}
Bounds(s) == IF s \in Ladder THEN 0..Len(s) ELSE Counts(s) \ {31, 32, 33, 129}

\* For a key of the ladder: its prefixes and suffixes, the keys that differ in one place, and
\* a key of every length.
Cuts(s) ==
    IF s \notin Ladder THEN {}
    ELSE {SubSeq(s, 1, i) : i \in 0..Len(s)} \cup {SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s)}
         \cup {[s EXCEPT ![i] = (@ + 1 + (i % 15)) % 16] : i \in 1..Len(s)}
         \cup Ladder

VARIABLES s
vars == <<s>>

Step(op, t, a, b) ==
    LET x == NibOp(op, s, t, a, b)
    IN /\ s' = x.s
       /\ PrintT(ToJson([q |-> "N", op |-> op, s |-> s, t |-> t, a |-> a, b |-> b, r |-> x.r,
                         s2 |-> x.s, o |-> x.o, n |-> x.n]))

Init == s \in Seeds

Next ==
    \/ \E op \in NibOps0 : Step(op, <<>>, 0, 0)
    \/ \E op \in NibOps1 : \E a \in (IF op \in IsNibArg THEN NibArgs ELSE Counts(s)) :
          Step(op, <<>>, a, 0)
    \* an inverted range inside the key is not documented either way
    \/ \E a \in Bounds(s), b \in Bounds(s) : (a <= b \/ b > Len(s)) /\ Step("get_nibble_range", <<>>, a, b)
    \/ \E op \in NibOpsT : \E t \in Others \cup {s} \cup Cuts(s) : Step(op, t, 0, 0)

Within == s \in Seeds

IsKey == Len(s) <= MaxNibbles /\ \A i \in 1..Len(s) : s[i] \in 0..15
Laws == PlaceLaws(s) /\ \A t \in Others : OpLaws(s, t)
=============================================================================
