-------------------------------- MODULE Mpt --------------------------------
(***************************************************************************)
(* Partial Merkle-Patricia tries.                                          *)
(*                                                                         *)
(* Three layers:                                                           *)
(*  1. contents: a function from keys to entries, an entry being a value   *)
(*     or the hash of a hidden sub-trie rooted at that key;                *)
(*  2. the canonical node tree of given contents (Canon), defined as in    *)
(*     the yellow paper, appendix D, and its Merkle root (RootHash);       *)
(*  3. the recursive algorithms the implementation uses on node trees      *)
(*     (AlgIns, AlgDel, AlgGet, AlgItems, Sub ...), one operator per       *)
(*     routine of src/trie_ops.rs and src/trie_subsets.rs.                 *)
(* The model-checking modules verify that layer 3 refines layers 1 and 2.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Nibs

(* ------------------------------ node trees ------------------------------ *)
Empty == [t |-> "E"]
HashN(h) == [t |-> "H", h |-> h]
Leaf(k, v) == [t |-> "L", k |-> k, v |-> v]
Ext(k, c) == [t |-> "X", k |-> k, c |-> c]
Branch(c, v) == [t |-> "B", c |-> c, v |-> v]   \* c: 16-tuple, slot n at c[n+1]

NoChildren == [i \in 1..16 |-> Empty]
NonEmptySlots(c) == {i \in 1..16 : c[i].t # "E"}

(* ------------------------------- entries -------------------------------- *)
Val(b) == [kind |-> "v", b |-> b]
Hid(h) == [kind |-> "h", b |-> h]
NoEnt == <<>>                                     \* the empty function

\* f with k mapped to e / with k removed
Put(ent, k, e) == [q \in (DOMAIN ent) \cup {k} |-> IF q = k THEN e ELSE ent[q]]
Remove(ent, k) == [q \in (DOMAIN ent) \ {k} |-> ent[q]]

\* The contents over universe w for a vector of entry numbers (0: absent): what the vector
\* says about the keys of the universe, and its surroundings, which are always there.
RestOf(w) == IF "rest" \in DOMAIN w THEN w.rest ELSE <<>>
Denoted(w, y) ==
    LET D == {i \in 1..Len(y) : y[i] # 0}
        K == {w.keys[i] : i \in D}
        R == RestOf(w)
        N == 1..Len(R)
    IN [k \in K \cup {R[i].k : i \in N} |->
            IF k \in K THEN w.ents[y[CHOOSE i \in D : w.keys[i] = k]]
            ELSE R[CHOOSE i \in N : R[i].k = k].e]
\* contents a trie can have: nothing below a hidden node
Consistent(ent) ==
    \A p \in DOMAIN ent : ent[p].kind = "h" => \A q \in DOMAIN ent : p # q => ~IsPfx(p, q)

\* k leads to or through a hidden sub-trie
Blocked(ent, k) == \E q \in DOMAIN ent : ent[q].kind = "h" /\ IsPfx(q, k)
\* writing entry e at k must be refused
InsertRefused(ent, k, e) ==
    \/ Blocked(ent, k)
    \/ e.kind = "h" /\ \E q \in DOMAIN ent : IsPfx(k, q)
LookupVal(ent, k) ==
    IF k \in DOMAIN ent /\ ent[k].kind = "v"
    THEN [r |-> "some", v |-> ent[k].b] ELSE [r |-> "none", v |-> <<>>]

(* --------------------- canonical tree of the contents -------------------- *)
RECURSIVE CommonPfx(_, _)
CommonPfx(D, p) ==                                 \* p: a prefix candidate
    IF D = {} THEN p
    ELSE LET k == CHOOSE q \in D : TRUE
         IN CommonPfx(D \ {k}, Take(p, Lcp(p, k)))

RECURSIVE Build(_, _, _)
Build(ent, D, i) ==
    IF D = {} THEN Empty
    ELSE LET k1 == CHOOSE q \in D : TRUE IN
    IF D = {k1} THEN
        LET rest == Drop(k1, i) IN
        IF ent[k1].kind = "v" THEN Leaf(rest, ent[k1].b)
        ELSE IF rest = <<>> THEN HashN(ent[k1].b) ELSE Ext(rest, HashN(ent[k1].b))
    ELSE LET p == Len(CommonPfx(D, k1)) IN
    IF p > i THEN Ext(SubSeq(k1, i + 1, p), Build(ent, D, p))
    ELSE Branch([n \in 1..16 |->
                    Build(ent, {q \in D : Len(q) > i /\ q[i + 1] = n - 1}, i + 1)],
                IF \E q \in D : Len(q) = i
                THEN ent[CHOOSE q \in D : Len(q) = i].b ELSE <<>>)
Canon(ent) == Build(ent, DOMAIN ent, 0)

\* the same tree for output, listing only the occupied slots of branches
Slots == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
RECURSIVE Brief(_)
Brief(n) ==
    CASE n.t = "X" -> [t |-> "X", k |-> Hex(n.k), c |-> Brief(n.c)]
      [] n.t = "B" ->
            LET s == SelectSeq(Slots, LAMBDA i : n.c[i].t # "E")
            IN [t |-> "B", v |-> Hex(n.v),
                s |-> [m \in 1..Len(s) |-> <<s[m] - 1, Brief(n.c[s[m]])>>]]
      [] n.t = "L" -> [t |-> "L", k |-> Hex(n.k), v |-> Hex(n.v)]
      [] n.t = "H" -> [t |-> "H", h |-> Hex(n.h)]
      [] OTHER -> n

(* ------------------------------- hashing -------------------------------- *)
RECURSIVE Enc(_), Ref(_)
Ref(n) ==
    IF n.t = "H" THEN RlpStr(n.h)
    ELSE LET e == Enc(n) IN IF Len(e) < 32 THEN e ELSE RlpStr(Keccak256(e))
Enc(n) ==
    CASE n.t = "E" -> RlpStr(<<>>)
      [] n.t = "L" -> RlpList(RlpStr(HexPrefix(n.k, TRUE)) \o RlpStr(n.v))
      [] n.t = "X" -> RlpList(RlpStr(HexPrefix(n.k, FALSE)) \o Ref(n.c))
      [] n.t = "B" -> RlpList(Concat([i \in 1..17 |-> IF i = 17 THEN RlpStr(n.v) ELSE Ref(n.c[i])]))

RootHash(n) == IF n.t = "H" THEN n.h ELSE Keccak256(Enc(n))
\* may be replaced by its hash without changing the hash of the whole
Hashable(n) == n.t = "H" \/ (n.t # "E" /\ Len(Enc(n)) >= 32)

(* ---------------- the algorithms of the implementation ------------------- *)
\* lookup
RECURSIVE AlgGet(_, _)
AlgGet(n, k) ==
    CASE n.t \in {"E", "H"} -> [r |-> "none", v |-> <<>>]
      [] n.t = "B" ->
            IF k = <<>>
            THEN IF n.v = <<>> THEN [r |-> "none", v |-> <<>>] ELSE [r |-> "some", v |-> n.v]
            ELSE AlgGet(n.c[k[1] + 1], Tail(k))
      [] n.t = "X" ->
            IF IsPfx(n.k, k) THEN AlgGet(n.c, Drop(k, Len(n.k))) ELSE [r |-> "none", v |-> <<>>]
      [] n.t = "L" ->
            IF n.k = k THEN [r |-> "some", v |-> n.v] ELSE [r |-> "none", v |-> <<>>]

\* insertion: [r |-> "ok" or "panic", n |-> new tree]
MkNode(k, e) ==
    IF e.kind = "v" THEN Leaf(k, e.b)
    ELSE IF k = <<>> THEN HashN(e.b) ELSE Ext(k, HashN(e.b))

\* n is a leaf or extension whose path is left by k
SplitAt(n, k, e) ==
    LET p == Lcp(n.k, k)
        exPost == Drop(n.k, p)
        newPost == Drop(k, p)
        exNode == IF n.t = "L" THEN Leaf(Drop(n.k, p + 1), n.v)
                  ELSE IF Len(exPost) = 1 THEN n.c ELSE Ext(Drop(exPost, 1), n.c)
        wrap(b) == IF p = 0 THEN b ELSE Ext(Take(n.k, p), b)
        new == MkNode(Drop(k, p + 1), e)
    IN IF exPost = <<>>
       THEN [r |-> "ok",
             n |-> wrap(Branch([NoChildren EXCEPT ![newPost[1] + 1] = new], n.v))]
       ELSE IF newPost = <<>>
       THEN IF e.kind = "h" THEN [r |-> "panic", n |-> n]
            ELSE [r |-> "ok",
                  n |-> wrap(Branch([NoChildren EXCEPT ![exPost[1] + 1] = exNode], e.b))]
       ELSE [r |-> "ok",
             n |-> wrap(Branch([NoChildren EXCEPT ![exPost[1] + 1] = exNode,
                                                  ![newPost[1] + 1] = new], <<>>))]

RECURSIVE AlgIns(_, _, _)
AlgIns(n, k, e) ==
    CASE n.t = "E" -> [r |-> "ok", n |-> MkNode(k, e)]
      [] n.t = "H" -> [r |-> "panic", n |-> n]
      [] n.t = "B" ->
            IF k = <<>>
            THEN IF e.kind = "h" THEN [r |-> "panic", n |-> n]
                 ELSE [r |-> "ok", n |-> Branch(n.c, e.b)]
            ELSE LET s == AlgIns(n.c[k[1] + 1], Tail(k), e)
                 IN IF s.r = "panic" THEN [r |-> "panic", n |-> n]
                    ELSE [r |-> "ok", n |-> Branch([n.c EXCEPT ![k[1] + 1] = s.n], n.v)]
      [] n.t = "X" ->
            IF IsPfx(n.k, k)
            THEN LET s == AlgIns(n.c, Drop(k, Len(n.k)), e)
                 IN IF s.r = "panic" THEN [r |-> "panic", n |-> n]
                    ELSE [r |-> "ok", n |-> Ext(n.k, s.n)]
            ELSE SplitAt(n, k, e)
      [] n.t = "L" ->
            IF n.k = k
            THEN IF e.kind = "h" THEN [r |-> "panic", n |-> n] ELSE [r |-> "ok", n |-> Leaf(k, e.b)]
            ELSE SplitAt(n, k, e)

\* deletion: [r |-> "some" / "none" / "panic", n |-> new tree, v |-> deleted value]
CollapseExt(k, c) ==
    CASE c.t = "B" -> Ext(k, c)
      [] c.t = "X" -> Ext(k \o c.k, c.c)
      [] c.t = "L" -> Leaf(k \o c.k, c.v)
      [] c.t = "H" -> Ext(k, c)
TryCollapse(n) == IF n.t = "X" THEN CollapseExt(n.k, n.c) ELSE n

\* a branch after losing a child or its value
Shrink(c, v) ==
    LET s == NonEmptySlots(c) IN
    IF s = {} THEN Leaf(<<>>, v)
    ELSE IF Cardinality(s) = 1 /\ v = <<>>
    THEN LET i == CHOOSE j \in s : TRUE IN Ext(<<i - 1>>, c[i])
    ELSE Branch(c, v)

RECURSIVE AlgDelRec(_, _)
AlgDelRec(n, k) ==
    LET none == [r |-> "none", n |-> n, v |-> <<>>] IN
    CASE n.t = "E" -> none
      [] n.t = "H" -> [r |-> "panic", n |-> n, v |-> <<>>]
      [] n.t = "L" -> IF n.k = k THEN [r |-> "some", n |-> Empty, v |-> n.v] ELSE none
      [] n.t = "X" ->
            IF ~IsPfx(n.k, k) THEN none
            ELSE LET s == AlgDelRec(n.c, Drop(k, Len(n.k)))
                 IN IF s.r = "some" THEN [r |-> "some", n |-> CollapseExt(n.k, s.n), v |-> s.v]
                    ELSE [s EXCEPT !.n = n]
      [] n.t = "B" ->
            IF k = <<>>
            THEN IF n.v = <<>> THEN none
                 ELSE [r |-> "some", n |-> Shrink(n.c, <<>>), v |-> n.v]
            ELSE LET s == AlgDelRec(n.c[k[1] + 1], Tail(k))
                 IN IF s.r = "some"
                    THEN [r |-> "some",
                          n |-> Shrink([n.c EXCEPT ![k[1] + 1] = TryCollapse(s.n)], n.v),
                          v |-> s.v]
                    ELSE [s EXCEPT !.n = n]
AlgDel(n, k) ==
    LET s == AlgDelRec(n, k)
    IN IF s.r = "some" THEN [s EXCEPT !.n = TryCollapse(s.n)] ELSE [s EXCEPT !.n = n]

\* deletion would leave a hidden node as the only child of a branch, whose
\* true merged form depends on what is hidden (known finding F1)
CollapsesOntoHidden(ent, k) ==
    /\ k \in DOMAIN ent /\ ent[k].kind = "v"
    /\ LET m == Remove(ent, k)
           TopHash(n) == n.t = "H"
           a == Canon(ent)
           b == Canon(m)
           RECURSIVE ExtHash(_, _)
           \* paths (prefixes) of extension nodes that point to a hash node
           ExtHash(n, p) ==
               CASE n.t = "X" -> (IF n.c.t = "H" THEN {p \o n.k} ELSE {}) \cup ExtHash(n.c, p \o n.k)
                 [] n.t = "B" -> UNION {ExtHash(n.c[i], p \o <<i - 1>>) : i \in 1..16}
                 [] OTHER -> {}
       IN ~(ExtHash(b, <<>>) \subseteq ExtHash(a, <<>>))

\* iteration: sequence of <<key, entry>> in the order of the implementation
RECURSIVE AlgItems(_, _), ItemsFrom(_, _, _)
ItemsFrom(c, p, i) ==
    IF i > 16 THEN <<>> ELSE AlgItems(c[i], p \o <<i - 1>>) \o ItemsFrom(c, p, i + 1)
AlgItems(n, p) ==
    CASE n.t = "E" -> <<>>
      [] n.t = "H" -> <<<<p, Hid(n.h)>>>>
      [] n.t = "L" -> <<<<p \o n.k, Val(n.v)>>>>
      [] n.t = "X" -> AlgItems(n.c, p \o n.k)
      [] n.t = "B" -> ItemsFrom(n.c, p, 1) \o (IF n.v = <<>> THEN <<>> ELSE <<<<p, Val(n.v)>>>>)
Items(n) == AlgItems(n, <<>>)
ItemsMatch(seq, ent) ==
    /\ Len(seq) = Cardinality(DOMAIN ent)
    /\ \A i \in 1..Len(seq) : seq[i][1] \in DOMAIN ent /\ ent[seq[i][1]] = seq[i][2]
    /\ \A i, j \in 1..Len(seq) : seq[i][1] = seq[j][1] => i = j
EntOf(n) == LET s == Items(n) IN
    [k \in {s[i][1] : i \in 1..Len(s)} |-> (s[CHOOSE i \in 1..Len(s) : s[i][1] = k])[2]]

(* ---------------------------- well-formedness ---------------------------- *)
RECURSIVE WellFormed(_)
WellFormed(n) ==
    CASE n.t \in {"E", "H"} -> TRUE
      [] n.t = "L" -> n.v # <<>>
      [] n.t = "X" -> n.k # <<>> /\ n.c.t \in {"B", "H"} /\ WellFormed(n.c)
      [] n.t = "B" ->
            /\ Cardinality(NonEmptySlots(n.c)) + (IF n.v = <<>> THEN 0 ELSE 1) >= 2
            /\ \A i \in 1..16 : WellFormed(n.c[i])

(* ------------------------------- subsets --------------------------------- *)
\* K: the set of (remainders of) requested keys that visit n; {} = untouched
ChildKeys(K, i) == {Tail(k) : k \in {q \in K : q # <<>> /\ q[1] = i - 1}}
ExtKeys(K, nk) == {Drop(k, Len(nk)) : k \in {q \in K : IsPfx(nk, q)}}

RECURSIVE SubErr(_, _)
SubErr(n, K) ==
    CASE n.t \in {"E", "L"} -> FALSE
      [] n.t = "H" -> \E k \in K : k # <<>>
      [] n.t = "X" -> SubErr(n.c, ExtKeys(K, n.k))
      [] n.t = "B" -> \E i \in 1..16 : SubErr(n.c[i], ChildKeys(K, i))

RECURSIVE Sub(_, _)
Sub(n, K) ==
    IF K = {} /\ Hashable(n) THEN HashN(RootHash(n))
    ELSE CASE n.t \in {"E", "H", "L"} -> n
           [] n.t = "X" -> Ext(n.k, Sub(n.c, ExtKeys(K, n.k)))
           [] n.t = "B" -> Branch([i \in 1..16 |-> Sub(n.c[i], ChildKeys(K, i))], n.v)

\* does a lookup of k meet a hidden node?
RECURSIVE MeetsHidden(_, _)
MeetsHidden(n, k) ==
    CASE n.t \in {"E", "L"} -> FALSE
      [] n.t = "H" -> TRUE
      [] n.t = "X" -> IsPfx(n.k, k) /\ MeetsHidden(n.c, Drop(k, Len(n.k)))
      [] n.t = "B" -> k # <<>> /\ MeetsHidden(n.c[k[1] + 1], Tail(k))

\* n is `full` with some hashable sub-tries replaced by their hashes
RECURSIVE IsPartialOf(_, _)
IsPartialOf(n, full) ==
    \/ n = full
    \/ n.t = "H" /\ Hashable(full) /\ n.h = RootHash(full)
    \/ n.t = "X" /\ full.t = "X" /\ n.k = full.k /\ IsPartialOf(n.c, full.c)
    \/ n.t = "B" /\ full.t = "B" /\ n.v = full.v
         /\ \A i \in 1..16 : IsPartialOf(n.c[i], full.c[i])

(* ------------------------- positions and hiding -------------------------- *)
\* the set of absolute paths at which a node starts
RECURSIVE Positions(_, _)
Positions(n, p) ==
    CASE n.t = "E" -> {}
      [] n.t \in {"H", "L"} -> {p}
      [] n.t = "X" -> {p} \cup Positions(n.c, p \o n.k)
      [] n.t = "B" -> {p} \cup UNION {Positions(n.c[i], p \o <<i - 1>>) : i \in 1..16}

RECURSIVE NodeAt(_, _)
NodeAt(n, p) ==
    IF p = <<>> THEN n
    ELSE CASE n.t = "X" -> IF IsPfx(n.k, p) THEN NodeAt(n.c, Drop(p, Len(n.k))) ELSE Empty
           [] n.t = "B" -> NodeAt(n.c[p[1] + 1], Tail(p))
           [] OTHER -> Empty

\* replace the nodes at the positions P by their hashes
RECURSIVE HideRec(_, _, _)
HideRec(n, p, P) ==
    IF p \in P /\ n.t # "E" THEN HashN(RootHash(n))
    ELSE CASE n.t = "X" -> Ext(n.k, HideRec(n.c, p \o n.k, P))
           [] n.t = "B" -> Branch([i \in 1..16 |-> HideRec(n.c[i], p \o <<i - 1>>, P)], n.v)
           [] OTHER -> n
Hide(n, P) == HideRec(n, <<>>, P)

(* ------------------------------ debug tools ------------------------------ *)
\* node counts and depths
RECURSIVE Stats(_, _), StatsSum(_, _, _)
ZeroStats == [e |-> 0, h |-> 0, b |-> 0, x |-> 0, l |-> 0, low |-> 0, ld |-> 0, hd |-> 0]
Max2(a, b) == IF a >= b THEN a ELSE b
AddStats(s, t) == [e |-> s.e + t.e, h |-> s.h + t.h, b |-> s.b + t.b, x |-> s.x + t.x,
    l |-> s.l + t.l, low |-> Max2(s.low, t.low), ld |-> s.ld + t.ld, hd |-> s.hd + t.hd]
StatsSum(c, d, i) == IF i > 16 THEN ZeroStats ELSE AddStats(Stats(c[i], d), StatsSum(c, d, i + 1))
Stats(n, d) ==
    CASE n.t = "E" -> [ZeroStats EXCEPT !.e = 1]
      [] n.t = "H" -> [ZeroStats EXCEPT !.h = 1, !.low = d, !.hd = d]
      [] n.t = "L" -> [ZeroStats EXCEPT !.l = 1, !.low = d, !.ld = d]
      [] n.t = "X" -> AddStats([ZeroStats EXCEPT !.x = 1], Stats(n.c, d + 1))
      [] n.t = "B" -> AddStats([ZeroStats EXCEPT !.b = 1], StatsSum(n.c, d + 1, 1))

KindName(n) ==
    CASE n.t = "E" -> "Empty" [] n.t = "H" -> "Hash" [] n.t = "B" -> "Branch"
      [] n.t = "X" -> "Extension" [] n.t = "L" -> "Leaf"
KeyPiece(n) == IF n.t \in {"X", "L"} THEN n.k ELSE <<>>
ValueOf(n) == IF n.t \in {"B", "L"} THEN n.v ELSE <<>>

\* the nodes a lookup of k visits: sequence of [t |-> kind, k |-> key piece]
RECURSIVE QueryPath(_, _)
QueryPath(n, k) ==
    LET seg(p) == [t |-> KindName(n), k |-> p] IN
    CASE n.t \in {"E", "H"} -> <<seg(<<>>)>>
      [] n.t = "L" -> <<seg(n.k)>>
      [] n.t = "X" -> <<seg(n.k)>> \o
            (IF IsPfx(n.k, k) THEN QueryPath(n.c, Drop(k, Len(n.k))) ELSE <<>>)
      [] n.t = "B" -> IF k = <<>> THEN <<seg(<<>>)>>
                      ELSE <<seg(<<k[1]>>)>> \o QueryPath(n.c[k[1] + 1], Tail(k))
\* a value is stored under k, or a hidden node sits exactly at k
QueryFound(ent, k) == k \in DOMAIN ent

\* all points where two trees differ: [kind |-> "node" / "hash", key, d (depth), a, b]
RECURSIVE DiffPoints(_, _, _, _)
DiffPoints(a, b, key, d) ==
    LET pt(kind, dd) == {[kind |-> kind, key |-> key, d |-> dd, a |-> a, b |-> b]} IN
    IF RootHash(a) = RootHash(b) THEN {}
    ELSE IF a.t # b.t \/ KeyPiece(a) # KeyPiece(b) THEN pt("node", d)
    ELSE CASE a.t = "L" -> pt("hash", d)
           [] a.t = "H" -> pt("hash", d + 1)
           [] a.t = "X" -> DiffPoints(a.c, b.c, key \o a.k, d + 1)
           [] a.t = "B" ->
                LET sub == UNION {DiffPoints(a.c[i], b.c[i], key \o <<i - 1>>, d + 1) : i \in 1..16}
                IN IF sub = {} THEN pt("hash", d) ELSE sub
\* the points that may be reported
Reportable(a, b) ==
    LET all == DiffPoints(a, b, <<>>, 0)
        nodes == {p \in all : p.kind = "node"}
        pref == IF nodes # {} THEN nodes ELSE all
    IN {p \in pref : \A q \in pref : Len(q.key) <= Len(p.key)}
=============================================================================
