---------------------------- MODULE SubsetFlaws -----------------------------
(* SubsetMC with one of the algorithms replaced. *)
EXTENDS SubsetMC, FlawMC

\* a key that ends inside of the path of an extension goes on at its child
RECURSIVE VisitBeyond(_, _, _)
VisitBeyond(n, k, p) ==
    CASE n.t \in {"E", "L"} -> [err |-> FALSE, at |-> {p}]
      [] n.t = "H" -> [err |-> k # <<>>, at |-> {p}]
      [] n.t = "B" ->
            IF k = <<>> THEN [err |-> FALSE, at |-> {p}]
            ELSE LET r == VisitBeyond(n.c[k[1] + 1], Tail(k), p \o <<k[1]>>)
                 IN [r EXCEPT !.at = @ \cup {p}]
      [] n.t = "X" ->
            IF ~IsPfx(n.k, k) /\ ~IsPfx(k, n.k) THEN [err |-> FALSE, at |-> {p}]
            ELSE LET r == VisitBeyond(n.c, Drop(k, Len(n.k)), p \o n.k)
                 IN [r EXCEPT !.at = @ \cup {p}]

\* FromTracked with another idea of what is to be hidden, and with or without
\* the values of branches
Hides(how, n) ==
    /\ n.t # "E"
    /\ CASE how = "never" -> FALSE
         [] how = "anything" -> TRUE                \* although the parent contains it as it is
         [] how = "longer" -> n.t # "H" /\ Len(Enc(n)) > 32  \* one byte too late
         [] how = "leaves" -> n.t = "L" /\ Hashable(n)  \* further down than need be
         [] OTHER -> Hashable(n)
RECURSIVE TrackedBy(_, _, _, _, _)
TrackedBy(n, p, T, how, values) ==
    IF p \notin T /\ Hides(how, n) THEN HashN(RootHash(n))
    ELSE CASE n.t \in {"E", "H", "L"} -> n
           [] n.t = "X" -> Ext(n.k, TrackedBy(n.c, p \o n.k, T, how, values))
           [] n.t = "B" ->
                Branch([i \in 1..16 |-> TrackedBy(n.c[i], p \o <<i - 1>>, T, how, values)],
                       IF values THEN n.v ELSE <<>>)
TrackedNever(n, p, T) == TrackedBy(n, p, T, "never", TRUE)
TrackedAnything(n, p, T) == TrackedBy(n, p, T, "anything", TRUE)
TrackedLonger(n, p, T) == TrackedBy(n, p, T, "longer", TRUE)
TrackedLeaves(n, p, T) == TrackedBy(n, p, T, "leaves", TRUE)
TrackedValueless(n, p, T) == TrackedBy(n, p, T, "right", FALSE)

(* the properties one by one *)
Visited == UNION {Visit(base, k, <<>>).at : k \in Requests}
ErrorsHold == err = SubErr(base, Requests)
SameRootHolds == ~err => SameRoot(Result)
AnswersHold == ~err => Answers(Requests, Result)
MinimalHolds == ~err => Minimal(Result, base, <<>>, Visited)
AsDefinedHolds == ~err => AsDefined(Requests, Result)
ComposesHolds == ~err => Composes(Requests, Result)
=============================================================================
