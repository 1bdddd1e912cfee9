------------------------------- MODULE ScaleMC -------------------------------
(***************************************************************************)
(* Large tries.  A family is a trie of which every level branches in the   *)
(* same way: the keys are a prefix, one nibble of each level's alphabet    *)
(* and a suffix, so that a few alphabets describe up to 16^4 entries.      *)
(* Hash, statistics, the nodes on the way to given keys and the subset for *)
(* given keys follow from one node per level; the invariants show for the  *)
(* families that are small enough (full = 1) that these short cuts agree   *)
(* with the definitions of Mpt on the whole contents.                      *)
(*                                                                         *)
(* Behaviours: dropping a nibble of a level with all entries below it,     *)
(* adding it again, and one further write (a mark) done and undone.        *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)

VARIABLES u, D, m
vars == <<u, D, m>>

F == U[u]
Depth == Len(F.alpha)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Alpha(i) == SetOf(F.alpha[i]) \ {F.drops[j].nib : j \in {q \in D : F.drops[q].lev = i}}
\* values depend on the last F.vary nibbles of the path
Value(ctx) == [i \in 1..F.vl |-> (F.vb + i) % 256] \o ctx

Bottom(ctx) ==
    IF F.hid = 1 THEN IF F.suffix = <<>> THEN HashN(F.h) ELSE Ext(F.suffix, HashN(F.h))
    ELSE Leaf(F.suffix, Value(ctx))
Wrap(n) == IF F.prefix = <<>> THEN n ELSE Ext(F.prefix, n)
Comp(n) == IF Hashable(n) THEN HashN(RootHash(n)) ELSE n

(* ------------------------- one node for each level ----------------------- *)
RECURSIVE Node(_, _)
Node(i, ctx) ==
    IF i > Depth THEN Bottom(ctx)
    ELSE LET same == Comp(Node(i + 1, <<>>))
             A == Alpha(i)
         IN Branch([n \in 1..16 |->
                        IF n - 1 \notin A THEN Empty
                        ELSE IF i <= Depth - F.vary THEN same
                        ELSE Comp(Node(i + 1, Append(ctx, n - 1)))], F.inner[i])

\* with the nodes visited by the keys K (beyond the prefix) in full
RECURSIVE Part(_, _, _)
Part(i, ctx, K) ==
    IF i > Depth THEN Bottom(ctx)
    ELSE LET same == Comp(Node(i + 1, <<>>))
             A == Alpha(i)
             Ctx(n) == IF i <= Depth - F.vary THEN <<>> ELSE Append(ctx, n - 1)
         IN Branch([n \in 1..16 |->
                        IF n - 1 \notin A THEN Empty
                        ELSE IF i = Depth \/ ChildKeys(K, n) # {}
                        THEN Part(i + 1, Ctx(n), ChildKeys(K, n))
                        ELSE IF i <= Depth - F.vary THEN same
                        ELSE Comp(Node(i + 1, Ctx(n)))], F.inner[i])
Base(K) == Wrap(Part(1, <<>>, ExtKeys(K, F.prefix)))

(* ------------------------------ the whole trie --------------------------- *)
RECURSIVE Whole(_, _)
Whole(i, ctx) ==
    IF i > Depth THEN Bottom(ctx)
    ELSE Branch([n \in 1..16 |->
                    IF n - 1 \notin Alpha(i) THEN Empty
                    ELSE Whole(i + 1, IF i <= Depth - F.vary THEN <<>> ELSE Append(ctx, n - 1))],
                F.inner[i])

RECURSIVE Paths(_)
Paths(i) == IF i = 0 THEN {<<>>} ELSE {Append(p, n) : p \in Paths(i - 1), n \in Alpha(i)}
Contents ==
    LET bot == {F.prefix \o p \o F.suffix : p \in Paths(Depth)}
        at(i) == IF F.inner[i] = <<>> THEN {} ELSE {F.prefix \o p : p \in Paths(i - 1)}
        mid == UNION {at(i) : i \in 1..Depth}
    IN [k \in bot \cup mid |->
            IF k \in bot
            THEN IF F.hid = 1 THEN Hid(F.h)
                 ELSE Val(Value(Drop(Take(Drop(k, Len(F.prefix)), Depth), Depth - F.vary)))
            ELSE Val(F.inner[Len(k) - Len(F.prefix) + 1])]

(* --------------------------------- marks --------------------------------- *)
Mark(t, j) ==
    IF j = 0 THEN t
    ELSE LET mk == F.marks[j] IN
         IF mk.op = "put" THEN AlgIns(t, mk.k, Val(mk.v)).n ELSE AlgDel(t, mk.k).n
MarkEnt(ent, j) ==
    IF j = 0 THEN ent
    ELSE LET mk == F.marks[j] IN
         IF mk.op = "put" THEN Put(ent, mk.k, Val(mk.v)) ELSE Remove(ent, mk.k)
MarkKeys(j) == IF j = 0 THEN {} ELSE {F.marks[j].k}
Tree(K) == Mark(Base(K \cup MarkKeys(m)), m)

(* ------------------------------- statistics ------------------------------ *)
Times(s, c) == [e |-> c * s.e, h |-> c * s.h, b |-> c * s.b, x |-> c * s.x, l |-> c * s.l,
                low |-> s.low, ld |-> c * s.ld, hd |-> c * s.hd]
RECURSIVE LevelStats(_, _)
LevelStats(i, d) ==
    IF i > Depth THEN Stats(Bottom(<<>>), d)
    ELSE LET c == Cardinality(Alpha(i))
         IN AddStats([ZeroStats EXCEPT !.b = 1, !.e = 16 - c], Times(LevelStats(i + 1, d + 1), c))
FamilyStats ==
    IF F.prefix = <<>> THEN LevelStats(1, 0)
    ELSE AddStats([ZeroStats EXCEPT !.x = 1], LevelStats(1, 1))
\* a mark below the prefix changes what it changes in the nodes around it
StatsKnown == m = 0 \/ Depth = 1 \/ IsPfx(F.prefix, F.marks[m].k)
MarkedStats ==
    IF m = 0 THEN FamilyStats
    ELSE IF Depth = 1 THEN Stats(Tree({}), 0)
    ELSE LET s == FamilyStats
             x == Stats(Base(MarkKeys(m)), 0)
             y == Stats(Tree({}), 0)
         IN [e |-> s.e + y.e - x.e, h |-> s.h + y.h - x.h, b |-> s.b + y.b - x.b,
             x |-> s.x + y.x - x.x, l |-> s.l + y.l - x.l, low |-> Max2(s.low, y.low),
             ld |-> s.ld + y.ld - x.ld, hd |-> s.hd + y.hd - x.hd]

RECURSIVE Product(_)
Product(i) == IF i = 0 THEN 1 ELSE Cardinality(Alpha(i)) * Product(i - 1)
RECURSIVE InnerCount(_)
InnerCount(i) == IF i = 0 THEN 0 ELSE InnerCount(i - 1) + IF F.inner[i] = <<>> THEN 0 ELSE Product(i - 1)
Count == Product(Depth) + InnerCount(Depth)

(* ------------------------------- behaviours ------------------------------ *)
Init == u \in 1..Len(U) /\ D = {} /\ m = 0
Next ==
    /\ UNCHANGED u
    /\ \/ m = 0 /\ m' = 0
          /\ \E j \in 1..Len(F.drops) : D' = IF j \in D THEN D \ {j} ELSE D \cup {j}
       \/ m = 0 /\ m' \in 1..Len(F.marks) /\ D' = D
       \/ m # 0 /\ m' = 0 /\ D' = D
    /\ PrintT(ToJson([q |-> "T", u |-> u, d |-> D, m |-> m, d2 |-> D', m2 |-> m']))

(* ---------------------------------- laws --------------------------------- *)
Requests == [j \in 1..Len(F.requests) |-> SetOf(F.requests[j])]
Probed == SetOf(F.probes)

ShortCuts ==
    LET ent == MarkEnt(Contents, m)
        whole == Mark(Wrap(Whole(1, <<>>)), m)
    IN /\ whole = Canon(ent)
       /\ (m = 0) => Count = Cardinality(DOMAIN ent)
       /\ RootHash(whole) = RootHash(Tree({}))
       /\ StatsKnown => Stats(whole, 0) = MarkedStats
       /\ \A k \in Probed :
            /\ QueryPath(whole, k) = QueryPath(Tree({k}), k)
            /\ AlgGet(whole, k) = AlgGet(Tree({k}), k)
            /\ AlgGet(whole, k) = LookupVal(ent, k)
       /\ \A j \in DOMAIN Requests :
            /\ SubErr(whole, Requests[j]) = SubErr(Tree(Requests[j]), Requests[j])
            /\ ~SubErr(whole, Requests[j]) =>
                 Sub(whole, Requests[j]) = Sub(Tree(Requests[j]), Requests[j])
       /\ m # 0 => DiffPoints(Wrap(Whole(1, <<>>)), whole, <<>>, 0) = {} <=>
                   DiffPoints(Base(MarkKeys(m)), Tree({}), <<>>, 0) = {}

\* for families of any size
Laws ==
    /\ \A i \in 1..Depth : Cardinality(Alpha(i)) >= 2
    /\ RootHash(Tree({})) = RootHash(Tree(Probed))
    /\ \A j \in DOMAIN Requests :
        LET t == Tree(Requests[j])
        IN ~SubErr(t, Requests[j]) => RootHash(Sub(t, Requests[j])) = RootHash(t)

Props == Laws /\ (F.full = 1 => ShortCuts)

(* --------------------------------- output -------------------------------- *)
RECURSIVE PathAbove(_, _)
PathAbove(n, p) ==
    IF p = <<>> THEN <<>>
    ELSE CASE n.t = "X" -> <<[t |-> "Extension", k |-> n.k]>> \o PathAbove(n.c, Drop(p, Len(n.k)))
           [] n.t = "B" -> <<[t |-> "Branch", k |-> <<p[1]>>]>> \o PathAbove(n.c[p[1] + 1], Tail(p))
           [] OTHER -> <<>>
NodeInfo(n, key) ==
    [key |-> key \o KeyPiece(n), kind |-> KindName(n), hash |-> Hex(RootHash(n)),
     hasval |-> n.t \in {"B", "L"}, val |-> ValueOf(n)]

Emit ==
    LET a == Base(MarkKeys(m))
        t == Tree({})
    IN PrintT(ToJson(
        [q |-> "S", u |-> u, d |-> D, m |-> m, root |-> Hex(RootHash(t)), known |-> StatsKnown, stats |-> MarkedStats,
         probes |-> [i \in 1..Len(F.probes) |->
            LET k == F.probes[i]
                n == Tree({k})
                g == AlgGet(n, k)
            IN [k |-> k, path |-> QueryPath(n, k), r |-> g.r, v |-> Hex(g.v), met |-> MeetsHidden(n, k)]],
         subs |-> [j \in 1..Len(F.requests) |->
            LET n == Tree(Requests[j])
                err == SubErr(n, Requests[j])
            IN [err |-> err, tree |-> IF err THEN Empty ELSE Brief(Sub(n, Requests[j]))]],
         points |-> IF m = 0 THEN {} ELSE
            {[key |-> p.key, path |-> PathAbove(a, p.key), a |-> NodeInfo(p.a, p.key),
              b |-> NodeInfo(p.b, p.key)] : p \in Reportable(a, t)}]))
=============================================================================
