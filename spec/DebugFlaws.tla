----------------------------- MODULE DebugFlaws -----------------------------
(* Wrong versions of the debug tools, to be refuted by DebugMC. *)
EXTENDS DebugMC

\* only the first slot that differs is looked at
RECURSIVE DiffFirstSlot(_, _, _, _)
DiffFirstSlot(m, n, key, d) ==
    LET pt(kind, dd) == {[kind |-> kind, key |-> key, d |-> dd, a |-> m, b |-> n]} IN
    IF RootHash(m) = RootHash(n) THEN {}
    ELSE IF m.t # n.t \/ KeyPiece(m) # KeyPiece(n) THEN pt("node", d)
    ELSE CASE m.t = "L" -> pt("hash", d)
           [] m.t = "H" -> pt("hash", d + 1)
           [] m.t = "X" -> DiffFirstSlot(m.c, n.c, key \o m.k, d + 1)
           [] m.t = "B" ->
                LET other == {i \in 1..16 : RootHash(m.c[i]) # RootHash(n.c[i])} IN
                IF other = {} THEN pt("hash", d)
                ELSE LET i == CHOOSE j \in other : \A q \in other : j <= q
                     IN DiffFirstSlot(m.c[i], n.c[i], key \o <<i - 1>>, d + 1)

\* what the code did: the value of a branch does not count
RECURSIVE DiffNoValues(_, _, _, _)
DiffNoValues(m, n, key, d) ==
    LET pt(kind, dd) == {[kind |-> kind, key |-> key, d |-> dd, a |-> m, b |-> n]} IN
    IF RootHash(m) = RootHash(n) THEN {}
    ELSE IF m.t # n.t \/ KeyPiece(m) # KeyPiece(n) THEN pt("node", d)
    ELSE CASE m.t = "L" -> pt("hash", d)
           [] m.t = "H" -> pt("hash", d + 1)
           [] m.t = "X" -> DiffNoValues(m.c, n.c, key \o m.k, d + 1)
           [] m.t = "B" -> UNION {DiffNoValues(m.c[i], n.c[i], key \o <<i - 1>>, d + 1) : i \in 1..16}

\* the point nearest to the root
ReportShallow(m, n) ==
    LET all == DiffPoints(m, n, <<>>, 0)
        nodes == {p \in all : p.kind = "node"}
        pref == IF nodes # {} THEN nodes ELSE all
    IN {p \in pref : \A q \in pref : Len(q.key) >= Len(p.key)}

\* the path goes on below an extension that the key does not reach the end of
RECURSIVE PathClamped(_, _)
PathClamped(n, k) ==
    LET seg(p) == [t |-> KindName(n), k |-> p] IN
    CASE n.t \in {"E", "H"} -> <<seg(<<>>)>>
      [] n.t = "L" -> <<seg(n.k)>>
      [] n.t = "X" -> <<seg(n.k)>> \o
            (IF Lcp(n.k, k) = Min2(Len(n.k), Len(k)) THEN PathClamped(n.c, Drop(k, Len(n.k))) ELSE <<>>)
      [] n.t = "B" -> IF k = <<>> THEN <<seg(<<>>)>>
                      ELSE <<seg(<<k[1]>>)>> \o PathClamped(n.c[k[1] + 1], Tail(k))

\* a leaf of another key is left out
RECURSIVE PathSkipsLeaf(_, _)
PathSkipsLeaf(n, k) ==
    LET seg(p) == [t |-> KindName(n), k |-> p] IN
    CASE n.t \in {"E", "H"} -> <<seg(<<>>)>>
      [] n.t = "L" -> IF n.k = k THEN <<seg(n.k)>> ELSE <<[t |-> "Empty", k |-> <<>>]>>
      [] n.t = "X" -> <<seg(n.k)>> \o
            (IF IsPfx(n.k, k) THEN PathSkipsLeaf(n.c, Drop(k, Len(n.k))) ELSE <<>>)
      [] n.t = "B" -> IF k = <<>> THEN <<seg(<<>>)>>
                      ELSE <<seg(<<k[1]>>)>> \o PathSkipsLeaf(n.c[k[1] + 1], Tail(k))

\* extensions do not count as a level
RECURSIVE StatsFlat(_, _), StatsFlatSum(_, _, _)
StatsFlatSum(c, d, i) == IF i > 16 THEN ZeroStats ELSE AddStats(StatsFlat(c[i], d), StatsFlatSum(c, d, i + 1))
StatsFlat(n, d) ==
    CASE n.t = "E" -> [ZeroStats EXCEPT !.e = 1]
      [] n.t = "H" -> [ZeroStats EXCEPT !.h = 1, !.low = d, !.hd = d]
      [] n.t = "L" -> [ZeroStats EXCEPT !.l = 1, !.low = d, !.ld = d]
      [] n.t = "X" -> AddStats([ZeroStats EXCEPT !.x = 1], StatsFlat(n.c, d))
      [] n.t = "B" -> AddStats([ZeroStats EXCEPT !.b = 1], StatsFlatSum(n.c, d + 1, 1))
\* hidden nodes do not count for the lowest depth
RECURSIVE StatsHighHash(_, _), StatsHighHashSum(_, _, _)
StatsHighHashSum(c, d, i) ==
    IF i > 16 THEN ZeroStats ELSE AddStats(StatsHighHash(c[i], d), StatsHighHashSum(c, d, i + 1))
StatsHighHash(n, d) ==
    CASE n.t = "E" -> [ZeroStats EXCEPT !.e = 1]
      [] n.t = "H" -> [ZeroStats EXCEPT !.h = 1, !.hd = d]
      [] n.t = "L" -> [ZeroStats EXCEPT !.l = 1, !.low = d, !.ld = d]
      [] n.t = "X" -> AddStats([ZeroStats EXCEPT !.x = 1], StatsHighHash(n.c, d + 1))
      [] n.t = "B" -> AddStats([ZeroStats EXCEPT !.b = 1], StatsHighHashSum(n.c, d + 1, 1))
=============================================================================
