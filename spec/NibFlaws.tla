------------------------------ MODULE NibFlaws ------------------------------
(* Wrong versions of the operations on keys, to be refuted by NibMC. *)
EXTENDS NibMC

RevNot(k) == k
\* every place counts in which the keys agree
LcpCount(k, l) == Cardinality({i \in 1..Min2(Len(k), Len(l)) : k[i] = l[i]})
\* as if the keys were numbers
LcpFromBack(k, l) == Min2(Len(k), Len(l)) -
    Cardinality({i \in 0..(Min2(Len(k), Len(l)) - 1) : k[Len(k) - i] # l[Len(l) - i]})
DropFromBack(k, n) == SubSeq(k, 1, Len(k) - n)
TakeFromBack(k, n) == SubSeq(k, Len(k) - Min2(n, Len(k)) + 1, Len(k))
Shorter == 63
=============================================================================
