------------------------------- MODULE DebugMC -------------------------------
(***************************************************************************)
(* The debug tools: difference of two tries, path of a key, statistics.    *)
(*                                                                         *)
(* A state is a pair of tries over one universe: the contents x and y, and *)
(* positions P of the second one that are hidden.  The invariants say what *)
(* the specified answers owe to the tries; the answers are printed and     *)
(* compared with those of the implementation.                              *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)
Which == IOEnv.WHICH

VARIABLES u, x, y, a, b
vars == <<u, x, y, a, b>>

Keys(w) == U[w].keys
Ents(w) == U[w].ents
Probes(w) == U[w].probes

EntX(w, z) == Denoted(U[w], z)

Vectors(w) == {z \in [1..Len(Keys(w)) -> 0..Len(Ents(w))] : Consistent(EntX(w, z))}

Hideable(t) == {p \in Positions(t, <<>>) : Hashable(NodeAt(t, p))}
\* nothing, one node or all nodes of a level hidden
Hidings(t) ==
    LET h == Hideable(t)
        low == {p \in h : \A q \in h : p # q => ~IsPfx(p, q)}
    IN {{}} \cup {{p} : p \in h} \cup {low}

Turned(z) == [i \in 1..Len(z) |-> z[Len(z) + 1 - i]]

Init ==
    /\ u \in 1..Len(U)
    /\ x \in Vectors(u)
    /\ a = Canon(EntX(u, x))
    /\ y = <<>> /\ b = [t |-> "E"]

\* the second trie is chosen in a step of its own, which TLC can do in parallel
Chosen == y # <<>>

Next ==
    /\ ~Chosen
    /\ CASE Which = "C20" ->
              /\ y' \in Vectors(u)
              /\ b' \in {Hide(Canon(EntX(u, y')), P) :
                         P \in IF U[u].hide = 1 THEN Hidings(Canon(EntX(u, y'))) ELSE {{}}}
         [] Which = "C21" -> y' = x /\ b' \in {Hide(a, P) : P \in Hidings(a)}
         [] OTHER ->
              \* a trie with a partly hidden version of itself or of some others
              /\ y' \in {z \in Vectors(u) : \/ z = x
                                             \/ /\ RestOf(U[u]) = <<>>
                                                /\ z = Turned(x) \/ \A i \in 1..Len(z) : z[i] = z[1]}
              /\ b' \in {Hide(Canon(EntX(u, y')), P) : P \in Hidings(Canon(EntX(u, y')))}
    /\ UNCHANGED <<u, x, a>>

(* ------------------------------ difference ------------------------------- *)
\* the nodes above position p agree in kind and key
RECURSIVE AgreeAbove(_, _, _)
AgreeAbove(m, n, p) ==
    p = <<>> \/ /\ m.t = n.t /\ KeyPiece(m) = KeyPiece(n)
                /\ CASE m.t = "X" -> IsPfx(m.k, p) /\ AgreeAbove(m.c, n.c, Drop(p, Len(m.k)))
                     [] m.t = "B" -> AgreeAbove(m.c[p[1] + 1], n.c[p[1] + 1], Tail(p))
                     [] OTHER -> FALSE

\* the kinds and key pieces from the root to (not including) position p
RECURSIVE PathAbove(_, _)
PathAbove(m, p) ==
    IF p = <<>> THEN <<>>
    ELSE CASE m.t = "X" -> <<[t |-> "Extension", k |-> m.k]>> \o PathAbove(m.c, Drop(p, Len(m.k)))
           [] m.t = "B" -> <<[t |-> "Branch", k |-> <<p[1]>>]>> \o PathAbove(m.c[p[1] + 1], Tail(p))
           [] OTHER -> <<>>

DiffSound ==
    LET rep == Reportable(a, b)
        all == DiffPoints(a, b, <<>>, 0)
        nodes == {p \in all : p.kind = "node"}
    IN /\ (rep = {}) <=> (RootHash(a) = RootHash(b))
       /\ \A p \in all :
            /\ NodeAt(a, p.key) = p.a /\ NodeAt(b, p.key) = p.b
            /\ AgreeAbove(a, b, p.key)
            /\ RootHash(p.a) # RootHash(p.b)
            /\ p.d = Len(PathAbove(a, p.key)) + (IF p.a.t = "H" /\ p.b.t = "H" THEN 1 ELSE 0)
            /\ (p.kind = "node") <=> (p.a.t # p.b.t \/ KeyPiece(p.a) # KeyPiece(p.b))
       /\ (nodes # {}) => rep \subseteq nodes
       \* no place with different nodes below nodes that agree is passed over
       /\ {p.key : p \in nodes} = {q \in Positions(a, <<>>) \cup Positions(b, <<>>) \cup {<<>>} :
            /\ AgreeAbove(a, b, q)
            /\ LET m == NodeAt(a, q)
                   n == NodeAt(b, q)
               IN (m.t # n.t \/ KeyPiece(m) # KeyPiece(n)) /\ RootHash(m) # RootHash(n)}
       /\ \A p \in rep : \A q \in all : q.kind = p.kind => Len(q.key) <= Len(p.key)
       \* swapping the tries swaps the answer
       /\ {[p EXCEPT !.a = p.b, !.b = p.a] : p \in rep} = Reportable(b, a)

NodeInfo(n, key) ==
    [key |-> key \o KeyPiece(n), kind |-> KindName(n), hash |-> Hex(RootHash(n)),
     hasval |-> n.t \in {"B", "L"}, val |-> ValueOf(n)]

EmitDiff == PrintT(ToJson(
    [q |-> "D", ta |-> Brief(a), tb |-> Brief(b),
     points |-> {[key |-> p.key, path |-> PathAbove(a, p.key), a |-> NodeInfo(p.a, p.key),
                  b |-> NodeInfo(p.b, p.key)] : p \in Reportable(a, b)}]))

(* --------------------------------- path ---------------------------------- *)
\* the additional information about each node of the path
Extra(n) ==
    CASE n.t = "H" -> [k |-> "hash", b |-> n.h, n |-> 0]
      [] n.t = "B" -> [k |-> "mask", b |-> [i \in 1..16 |-> IF n.c[i].t = "E" THEN 0 ELSE 1],
                       n |-> Cardinality(NonEmptySlots(n.c))]
      [] n.t = "L" -> [k |-> "value", b |-> n.v, n |-> 0]
      [] OTHER -> [k |-> "none", b |-> <<>>, n |-> 0]

RECURSIVE Extras(_, _)
Extras(n, k) ==
    <<Extra(n)>> \o
    CASE n.t = "X" -> IF IsPfx(n.k, k) THEN Extras(n.c, Drop(k, Len(n.k))) ELSE <<>>
      [] n.t = "B" -> IF k = <<>> THEN <<>> ELSE Extras(n.c[k[1] + 1], Tail(k))
      [] OTHER -> <<>>

PathSound ==
    LET ent == EntOf(b) IN
    \A i \in 1..Len(Probes(u)) :
        LET k == Probes(u)[i]
            path == QueryPath(b, k)
            last == path[Len(path)]
        IN /\ Len(path) = Len(Extras(b, k))
           \* found means there is something to be read or a hidden node there
           /\ QueryFound(ent, k) <=> (AlgGet(b, k).r = "some" \/ (k \in DOMAIN ent /\ ent[k].kind = "h"))
           /\ QueryFound(ent, k) => last.t \in {"Leaf", "Branch", "Hash"}
           /\ MeetsHidden(b, k) <=> last.t = "Hash"
           /\ \A j \in 1..(Len(path) - 1) : path[j].t \in {"Branch", "Extension"}
           \* the nodes that start at a prefix of the key, from the shortest on
           /\ LET at == {p \in Positions(b, <<>>) : IsPfx(p, k)}
                  seen == IF last.t = "Empty" THEN Len(path) - 1 ELSE Len(path)
              IN /\ seen = Cardinality(at)
                 /\ \A p \in at : LET j == Cardinality({q \in at : IsPfx(q, p)})
                                      n == NodeAt(b, p)
                                  IN /\ path[j].t = KindName(n)
                                     /\ path[j].k = IF n.t = "B" THEN SubSeq(k, Len(p) + 1, Min2(Len(k), Len(p) + 1))
                                                    ELSE KeyPiece(n)

EmitPath == PrintT(ToJson(
    [q |-> "Q", t |-> Brief(b),
     probes |-> LET ent == EntOf(b) IN
        [i \in 1..Len(Probes(u)) |->
            [k |-> Probes(u)[i], found |-> QueryFound(ent, Probes(u)[i]),
             path |-> QueryPath(b, Probes(u)[i]), extra |-> Extras(b, Probes(u)[i])]]]))

(* ------------------------------ statistics ------------------------------- *)
\* the number of nodes above the one at p
DepthOf(pos, p) == Cardinality({q \in pos : q # p /\ IsPfx(q, p)})
RECURSIVE SumDepths(_, _)
SumDepths(pos, S) ==
    IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN DepthOf(pos, p) + SumDepths(pos, S \ {p})

StatsSound ==
    LET s == Stats(b, 0)
        pos == Positions(b, <<>>)
        of(t) == {p \in pos : NodeAt(b, p).t = t}
        ends == of("L") \cup of("H")
        ent == EntOf(b)
        hid == {k \in DOMAIN ent : ent[k].kind = "h"}
        atBranch == {p \in Positions(b, <<>>) : NodeAt(b, p).t = "B" /\ NodeAt(b, p).v # <<>>}
    IN /\ s.h = Cardinality(hid)
       /\ s.l + Cardinality(atBranch) = Cardinality(DOMAIN ent \ hid)
       \* every node but the root is the child of another one
       /\ 16 * s.b + s.x + 1 = s.e + s.h + s.b + s.x + s.l
       /\ s.ld + s.hd <= s.low * (s.l + s.h)
       /\ s.b = Cardinality(of("B")) /\ s.x = Cardinality(of("X")) /\ s.l = Cardinality(of("L"))
       /\ s.ld = SumDepths(pos, of("L")) /\ s.hd = SumDepths(pos, of("H"))
       /\ \A p \in ends : DepthOf(pos, p) <= s.low
       /\ IF ends = {} THEN s.low = 0 ELSE \E p \in ends : DepthOf(pos, p) = s.low

EmitStats == PrintT(ToJson([q |-> "A", ta |-> Brief(a), tb |-> Brief(b), a |-> Stats(a, 0), b |-> Stats(b, 0)]))

Props == Chosen => CASE Which = "C20" -> DiffSound [] Which = "C21" -> PathSound [] OTHER -> StatsSound
Emit == Chosen => CASE Which = "C20" -> EmitDiff [] Which = "C21" -> EmitPath [] OTHER -> EmitStats
=============================================================================
