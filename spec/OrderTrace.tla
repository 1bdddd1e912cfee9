------------------------------ MODULE OrderTrace ------------------------------
(***************************************************************************)
(* Keys as elements of collections.  The harness makes keys in many ways,  *)
(* compares all of them with one another and puts them into a sorted and a *)
(* hashed set; this module says which of the recorded answers are allowed. *)
(* The specification does not fix which order keys have, only that it is a *)
(* total order of sequences: the answers determine it.                     *)
(*                                                                         *)
(* An episode: keys - sequences; eq - matrix of ==; cmp - matrix of -1, 0, *)
(* 1 (0, 1, 2 in the file); pcmp - the same from the partial order;        *)
(* hash - hash codes (text); ops - operations on the two sets with         *)
(* their answers; sorted - the sorted set at the end as indices.           *)
(***************************************************************************)
EXTENDS Nibs, FiniteSets, TLC, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)

VARIABLES ep, i, S, bad
vars == <<ep, i, S, bad>>

E == T[ep]
N == Len(E.keys)
Key(a) == E.keys[a]
Le(a, b) == E.cmp[a][b] # 2

Equality == \A a, b \in 1..N : (E.eq[a][b] = 1) <=> (Key(a) = Key(b))
Hashes == \A a, b \in 1..N : Key(a) = Key(b) => E.hash[a] = E.hash[b]
Total == \A a, b \in 1..N :
    /\ E.cmp[a][b] = 2 - E.cmp[b][a]
    /\ (E.cmp[a][b] = 1) <=> (Key(a) = Key(b))
    /\ E.pcmp[a][b] = E.cmp[a][b]
Transitive == \A a, b, c \in 1..N : Le(a, b) /\ Le(b, c) => Le(a, c)
\* one of equal keys stands for all
Sorted(Z) ==
    LET s == E.sorted IN
    /\ {Key(s[j]) : j \in 1..Len(s)} = Z
    /\ Len(s) = Cardinality(Z)
    /\ \A j \in 1..(Len(s) - 1) : E.cmp[s[j]][s[j + 1]] = 0

Ev == E.ops[i]
\* what the operation does to the set and answers
Answer == CASE Ev.op = "add" -> Key(Ev.k) \notin S
            [] OTHER -> Key(Ev.k) \in S
After == CASE Ev.op = "add" -> S \cup {Key(Ev.k)}
           [] Ev.op = "remove" -> S \ {Key(Ev.k)}
           [] OTHER -> S
Allowed ==
    /\ (Ev.tree = 1) <=> Answer
    /\ (Ev.hash = 1) <=> Answer
    /\ Ev.treelen = Cardinality(After)
    /\ Ev.hashlen = Cardinality(After)

Init == ep \in 1..Len(T) /\ i = 0 /\ S = {} /\ bad = FALSE

Why == IF i # 0 THEN IF i > Len(E.ops) THEN "sorted" ELSE "answer"
       ELSE IF ~Equality THEN "equality" ELSE IF ~Hashes THEN "hash codes"
       ELSE IF ~Total THEN "comparison" ELSE "transitivity"
Fail == /\ bad' = TRUE /\ UNCHANGED <<ep, S>>
        /\ PrintT(ToJson([q |-> "BAD", ep |-> ep, i |-> i, why |-> Why]))

Next ==
    /\ ~bad
    /\ CASE i = 0 ->
              /\ i' = 1
              /\ IF Equality /\ Hashes /\ Total /\ Transitive
                 THEN UNCHANGED <<ep, S, bad>> ELSE Fail
         [] i \in 1..Len(E.ops) ->
              /\ i' = i + 1
              /\ IF Allowed THEN S' = After /\ UNCHANGED <<ep, bad>> ELSE Fail
         [] i = Len(E.ops) + 1 ->
              /\ i' = i + 1
              /\ IF Sorted(S) THEN UNCHANGED <<ep, S, bad>> ELSE Fail
         [] OTHER -> FALSE

TypeOK == i \in 0..(Len(E.ops) + 2)
=============================================================================
