------------------------------ MODULE HandleMC ------------------------------
(***************************************************************************)
(* Two tries that may share structure, the hash caches at their roots, and *)
(* one snapshot (a clone, a sub-node, a subset or a running iterator).     *)
(*                                                                         *)
(* State: u - the universe, x - the contents of the two tries, cell - the  *)
(* cache cell each trie uses, cache - what each cell holds (the nodes whose*)
(* hash it stores), snap - the nodes the snapshot shows.                   *)
(*                                                                         *)
(* Fresh (C05) says that a filled cache belongs to the present nodes.  It  *)
(* holds when a clone gets a cell of its own and every write clears the    *)
(* cell (IOEnv.DESIGN = "own"); it fails, as it must, for "shared" (clones *)
(* share the cell, the design of the original code) and for "lazy" (direct *)
(* replacement of nodes does not clear the cell).                          *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)
Emitting == IOEnv.EMIT = "1"
Design == IOEnv.DESIGN

VARIABLES u, x, cell, cache, snap
vars == <<u, x, cell, cache, snap>>

Hs == {1, 2}
Keys(w) == U[w].keys
Ents(w) == U[w].ents
None == [t |-> "none"]

EntX(w, y) == Denoted(U[w], y)
TreeX(w, y) == Canon(EntX(w, y))
TreeOf(h) == TreeX(u, x[h])
Other(h) == 3 - h

\* printed once per contents, not once per cache state
Quiet == cache = [c \in Hs |-> None] /\ cell = [h \in Hs |-> h] /\ snap = None
EmitT(op, h, i, j, r, y) ==
    (Emitting /\ Quiet) => PrintT(ToJson([q |-> "T", u |-> u, x |-> x, op |-> op, h |-> h,
                                          i |-> i, j |-> j, r |-> r, y |-> y]))

Init == /\ u \in 1..Len(U)
        /\ x = [h \in Hs |-> [i \in 1..Len(Keys(u)) |-> 0]]
        /\ cell = [h \in Hs |-> h]
        /\ cache = [c \in Hs |-> None]
        /\ snap = None

Clear(h) == [cache EXCEPT ![cell[h]] = None]

Insert(h, i, j) ==
    LET k == Keys(u)[i]
        e == Ents(u)[j]
        ref == InsertRefused(EntX(u, x[h]), k, e)
        y == IF ref THEN x ELSE [x EXCEPT ![h][i] = j]
    IN /\ x' = y
       /\ cache' = IF ref THEN cache ELSE Clear(h)
       /\ UNCHANGED <<u, cell, snap>>
       /\ EmitT("ins", h, i, j, IF ref THEN "panic" ELSE "ok", y)

Delete(h, i) ==
    LET ent == EntX(u, x[h])
        k == Keys(u)[i]
        r == IF Blocked(ent, k) THEN "panic" ELSE LookupVal(ent, k).r
        y == IF r = "some" THEN [x EXCEPT ![h][i] = 0] ELSE x
    IN /\ x' = y
       /\ cache' = IF r = "panic" THEN cache ELSE Clear(h)
       /\ UNCHANGED <<u, cell, snap>>
       /\ EmitT("del", h, i, 0, r, y)

\* a bulk insert that inserts entry j at key i and then fails
ExtendFails(h, i, j) ==
    LET k == Keys(u)[i]
        e == Ents(u)[j]
        ref == InsertRefused(EntX(u, x[h]), k, e)
        y == IF ref THEN x ELSE [x EXCEPT ![h][i] = j]
    IN /\ e.kind = "h"
       /\ x' = y
       /\ cache' = Clear(h)
       /\ UNCHANGED <<u, cell, snap>>
       /\ EmitT("extend", h, i, j, "panic", y)

\* asks for the hash: fills the cache
Hash(h) ==
    /\ cache' = IF cache[cell[h]] = None THEN [cache EXCEPT ![cell[h]] = TreeOf(h)] ELSE cache
    /\ UNCHANGED <<u, x, cell, snap>>
    /\ EmitT("hash", h, 0, 0, "ok", x)

\* the trie is put below another node, that one is hashed, and the trie is taken
\* out again as it is there
Nest(h) ==
    /\ cache' = IF cache[cell[h]] = None THEN [cache EXCEPT ![cell[h]] = TreeOf(h)] ELSE cache
    /\ UNCHANGED <<u, x, cell, snap>>
    /\ EmitT("nest", h, 0, 0, "ok", x)

\* an insert into the sub-node on the way to the key, reached by mutable access
OnWay(n, k) ==
    CASE n.t = "B" /\ k # <<>> -> [ok |-> n.c[k[1] + 1].t \notin {"E", "H"}, c |-> n.c[k[1] + 1], k |-> Drop(k, 1)]
      [] n.t = "X" /\ IsPfx(n.k, k) -> [ok |-> n.c.t # "H", c |-> n.c, k |-> Drop(k, Len(n.k))]
      [] OTHER -> [ok |-> FALSE]
WithChild(n, k, c) == IF n.t = "B" THEN [n EXCEPT !.c[k[1] + 1] = c] ELSE [n EXCEPT !.c = c]
Inner(h, i, j) ==
    LET k == Keys(u)[i]
        e == Ents(u)[j]
        ref == InsertRefused(EntX(u, x[h]), k, e)
        y == IF ref THEN x ELSE [x EXCEPT ![h][i] = j]
    IN /\ OnWay(TreeOf(h), k).ok
       /\ x' = y
       /\ cache' = Clear(h)
       /\ UNCHANGED <<u, cell, snap>>
       /\ EmitT("inner", h, i, j, IF ref THEN "panic" ELSE "ok", y)
\* which leads to the same nodes as the insert into the whole
InnerAgrees ==
    (Quiet /\ \A i \in 1..Len(Keys(u)) : x[2][i] = 0) =>
        \A i \in 1..Len(Keys(u)), j \in 1..Len(Ents(u)) :
            LET n == TreeOf(1)
                k == Keys(u)[i]
                w == OnWay(n, k)
            IN w.ok => LET a == AlgIns(n, k, Ents(u)[j])
                           b == AlgIns(w.c, w.k, Ents(u)[j])
                       IN /\ a.r = b.r
                          /\ a.r = "ok" => a.n = WithChild(n, k, b.n)

\* the other trie becomes a clone of h
Clone(h) ==
    LET o == Other(h)
        y == [x EXCEPT ![o] = x[h]]
    IN /\ x' = y
       /\ IF Design = "shared"
          THEN cell' = [cell EXCEPT ![o] = cell[h]] /\ cache' = cache
          ELSE cell' = cell /\ cache' = [cache EXCEPT ![o] = cache[h]]
       /\ UNCHANGED <<u, snap>>
       /\ EmitT("clone", h, 0, 0, "ok", y)

\* the nodes of h are replaced by those of the other through mutable access
Assign(h) ==
    LET y == [x EXCEPT ![h] = x[Other(h)]]
    IN /\ x' = y
       /\ cache' = IF Design = "lazy" THEN cache ELSE Clear(h)
       /\ UNCHANGED <<u, cell, snap>>
       /\ EmitT("assign", h, 0, 0, "ok", y)

\* what a snapshot of nodes n can show
Snapshots(n) == {NodeAt(n, p) : p \in Positions(n, <<>>)}
             \cup {Sub(n, {Keys(u)[i]}) : i \in {j \in 1..Len(Keys(u)) : ~SubErr(n, {Keys(u)[j]})}}
Take1(h) ==
    /\ IOEnv.SNAP = "1" /\ snap = None
    /\ snap' \in Snapshots(TreeOf(h))
    /\ UNCHANGED <<u, x, cell, cache>>
Drop1 == snap # None /\ snap' = None /\ UNCHANGED <<u, x, cell, cache>>

Next ==
    \E h \in Hs :
        \/ Hash(h) \/ Nest(h) \/ Clone(h) \/ Assign(h) \/ Take1(h) \/ Drop1
        \/ \E i \in 1..Len(Keys(u)) :
              \/ Delete(h, i)
              \/ \E j \in 1..Len(Ents(u)) : Insert(h, i, j) \/ ExtendFails(h, i, j) \/ Inner(h, i, j)

(* ------------------------------ properties ------------------------------ *)
\* C05: what a trie reports as its hash is the hash of its nodes
Fresh == \A h \in Hs : cache[cell[h]] \in {None, TreeOf(h)}
\* C06: a step on one trie changes neither the other one nor the snapshot
Isolated ==
    [][ /\ \A h \in Hs : x'[h] = x[h] \/ x'[Other(h)] = x[Other(h)]
        /\ snap' = snap \/ snap = None \/ snap' = None ]_vars

\* per contents: nodes, hash, entries, sub-nodes and subsets
EmitContents ==
    (Emitting /\ Quiet /\ \A i \in 1..Len(Keys(u)) : x[2][i] = 0) =>
        LET n == TreeOf(1)
            pos == Positions(n, <<>>)
        IN PrintT(ToJson([q |-> "C", u |-> u, x |-> x[1], tree |-> Brief(n), hash |-> Hex(RootHash(n)),
               kids |-> {[p |-> p, tree |-> Brief(NodeAt(n, p)), hash |-> Hex(RootHash(NodeAt(n, p)))] : p \in pos},
               subs |-> [i \in 1..Len(Keys(u)) |->
                   IF SubErr(n, {Keys(u)[i]}) THEN [ok |-> FALSE, tree |-> Empty]
                   ELSE [ok |-> TRUE, tree |-> Brief(Sub(n, {Keys(u)[i]}))]]]))
=============================================================================
