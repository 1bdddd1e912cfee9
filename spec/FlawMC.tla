------------------------------- MODULE FlawMC -------------------------------
(***************************************************************************)
(* Wrong versions of the algorithms of Mpt and SubsetMC.  Each of them is  *)
(* put in place of the right one (the checks write a configuration with    *)
(* the substitution) and has to be refuted by the properties of the module *)
(* it is used in: properties that a wrong algorithm satisfies say too      *)
(* little.  Some of them are what the code did before it was repaired.     *)
(***************************************************************************)
EXTENDS Mpt

(* ------------------------------- lookups --------------------------------- *)
\* a leaf answers for every key that begins with its path
RECURSIVE GetByPrefix(_, _)
GetByPrefix(n, k) ==
    CASE n.t \in {"E", "H"} -> [r |-> "none", v |-> <<>>]
      [] n.t = "B" ->
            IF k = <<>>
            THEN IF n.v = <<>> THEN [r |-> "none", v |-> <<>>] ELSE [r |-> "some", v |-> n.v]
            ELSE GetByPrefix(n.c[k[1] + 1], Tail(k))
      [] n.t = "X" ->
            IF IsPfx(n.k, k) THEN GetByPrefix(n.c, Drop(k, Len(n.k)))
            ELSE [r |-> "none", v |-> <<>>]
      [] n.t = "L" ->
            IF IsPfx(n.k, k) THEN [r |-> "some", v |-> n.v] ELSE [r |-> "none", v |-> <<>>]

\* a branch without a value answers with the empty value
RECURSIVE GetEmptyValue(_, _)
GetEmptyValue(n, k) ==
    CASE n.t \in {"E", "H"} -> [r |-> "none", v |-> <<>>]
      [] n.t = "B" ->
            IF k = <<>> THEN [r |-> "some", v |-> n.v] ELSE GetEmptyValue(n.c[k[1] + 1], Tail(k))
      [] n.t = "X" ->
            IF IsPfx(n.k, k) THEN GetEmptyValue(n.c, Drop(k, Len(n.k)))
            ELSE [r |-> "none", v |-> <<>>]
      [] n.t = "L" ->
            IF n.k = k THEN [r |-> "some", v |-> n.v] ELSE [r |-> "none", v |-> <<>>]

(* ------------------------------- inserts --------------------------------- *)
\* SplitAt with two flaws: splitting an extension just in front of its child
\* leaves an empty extension; the value of the leaf is lost
SplitWrong(n, k, e, empty, lost) ==
    LET p == Lcp(n.k, k)
        exPost == Drop(n.k, p)
        newPost == Drop(k, p)
        exNode == IF n.t = "L" THEN Leaf(Drop(n.k, p + 1), n.v)
                  ELSE IF Len(exPost) = 1 /\ ~empty THEN n.c ELSE Ext(Drop(exPost, 1), n.c)
        wrap(b) == IF p = 0 THEN b ELSE Ext(Take(n.k, p), b)
        new == MkNode(Drop(k, p + 1), e)
    IN IF exPost = <<>>
       THEN [r |-> "ok",
             n |-> wrap(Branch([NoChildren EXCEPT ![newPost[1] + 1] = new], IF lost THEN <<>> ELSE n.v))]
       ELSE IF newPost = <<>>
       THEN IF e.kind = "h" THEN [r |-> "panic", n |-> n]
            ELSE [r |-> "ok", n |-> wrap(Branch([NoChildren EXCEPT ![exPost[1] + 1] = exNode], e.b))]
       ELSE [r |-> "ok",
             n |-> wrap(Branch([NoChildren EXCEPT ![exPost[1] + 1] = exNode,
                                                  ![newPost[1] + 1] = new], <<>>))]
SplitKeepsEmpty(n, k, e) == SplitWrong(n, k, e, TRUE, FALSE)
SplitLosesValue(n, k, e) == SplitWrong(n, k, e, FALSE, TRUE)

\* a new node is a hidden node right below the branch, whatever its path is
NodeWithoutPath(k, e) == IF e.kind = "v" THEN Leaf(k, e.b) ELSE HashN(e.b)

(* ------------------------------- deletes --------------------------------- *)
\* a branch stays a branch
ShrinkNever(c, v) == Branch(c, v)
\* the value does not count
ShrinkForgetsValue(c, v) ==
    LET s == NonEmptySlots(c) IN
    IF Cardinality(s) = 1 THEN LET i == CHOOSE j \in s : TRUE IN Ext(<<i - 1>>, c[i])
    ELSE IF s = {} THEN Leaf(<<>>, v) ELSE Branch(c, v)
\* a branch with its value only stays a branch
ShrinkKeepsValueBranch(c, v) ==
    LET s == NonEmptySlots(c) IN
    IF Cardinality(s) = 1 /\ v = <<>>
    THEN LET i == CHOOSE j \in s : TRUE IN Ext(<<i - 1>>, c[i])
    ELSE Branch(c, v)
\* paths are not joined
CollapseNever(k, c) == Ext(k, c)
\* the paths are joined the wrong way round
CollapseSwapped(k, c) ==
    CASE c.t = "B" -> Ext(k, c)
      [] c.t = "X" -> Ext(c.k \o k, c.c)
      [] c.t = "L" -> Leaf(c.k \o k, c.v)
      [] c.t = "H" -> Ext(k, c)
\* what the code did: a key that leads into a hidden part is not found
RECURSIVE DelIgnoresHidden(_, _)
DelIgnoresHidden(n, k) ==
    LET none == [r |-> "none", n |-> n, v |-> <<>>] IN
    CASE n.t \in {"E", "H"} -> none
      [] n.t = "L" -> IF n.k = k THEN [r |-> "some", n |-> Empty, v |-> n.v] ELSE none
      [] n.t = "X" ->
            IF ~IsPfx(n.k, k) THEN none
            ELSE LET s == DelIgnoresHidden(n.c, Drop(k, Len(n.k)))
                 IN IF s.r = "some" THEN [r |-> "some", n |-> CollapseExt(n.k, s.n), v |-> s.v]
                    ELSE [s EXCEPT !.n = n]
      [] n.t = "B" ->
            IF k = <<>>
            THEN IF n.v = <<>> THEN none ELSE [r |-> "some", n |-> Shrink(n.c, <<>>), v |-> n.v]
            ELSE LET s == DelIgnoresHidden(n.c[k[1] + 1], Tail(k))
                 IN IF s.r = "some"
                    THEN [r |-> "some", n |-> Shrink([n.c EXCEPT ![k[1] + 1] = TryCollapse(s.n)], n.v),
                          v |-> s.v]
                    ELSE [s EXCEPT !.n = n]

(* ------------------------------ iteration -------------------------------- *)
\* values of branches are passed over
RECURSIVE ItemsWithoutBranch(_, _), FromWithoutBranch(_, _, _)
FromWithoutBranch(c, p, i) ==
    IF i > 16 THEN <<>>
    ELSE ItemsWithoutBranch(c[i], p \o <<i - 1>>) \o FromWithoutBranch(c, p, i + 1)
ItemsWithoutBranch(n, p) ==
    CASE n.t = "E" -> <<>>
      [] n.t = "H" -> <<<<p, Hid(n.h)>>>>
      [] n.t = "L" -> <<<<p \o n.k, Val(n.v)>>>>
      [] n.t = "X" -> ItemsWithoutBranch(n.c, p \o n.k)
      [] n.t = "B" -> FromWithoutBranch(n.c, p, 1)

\* the slot is left out of the key
RECURSIVE ItemsWithoutSlot(_, _), FromWithoutSlot(_, _, _)
FromWithoutSlot(c, p, i) ==
    IF i > 16 THEN <<>>
    ELSE ItemsWithoutSlot(c[i], IF c[i].t = "H" THEN p ELSE p \o <<i - 1>>) \o FromWithoutSlot(c, p, i + 1)
ItemsWithoutSlot(n, p) ==
    CASE n.t = "E" -> <<>>
      [] n.t = "H" -> <<<<p, Hid(n.h)>>>>
      [] n.t = "L" -> <<<<p \o n.k, Val(n.v)>>>>
      [] n.t = "X" -> ItemsWithoutSlot(n.c, p \o n.k)
      [] n.t = "B" -> (IF n.v = <<>> THEN <<>> ELSE <<<<p, Val(n.v)>>>>) \o FromWithoutSlot(n.c, p, 1)

=============================================================================
