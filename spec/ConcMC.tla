------------------------------- MODULE ConcMC -------------------------------
(***************************************************************************)
(* Threads working on tries that share structure.                          *)
(*                                                                         *)
(* A trie is a root and one sub-trie per first nibble.  Every one of these *)
(* nodes has a cell that caches its hash, guarded by a readers/writer lock *)
(* that prefers waiting writers.  Copying a trie copies the root with its  *)
(* cell and shares the sub-tries; a write replaces the sub-trie it touches *)
(* by a new one.  Thread 0 is the owner of the base trie, which the other  *)
(* threads copy and hash but nobody writes.                                *)
(*                                                                         *)
(* Every thread runs its own program.  Whatever the interleaving of the    *)
(* locking steps, its results must be those it gets alone (Sequential), no *)
(* trie changes under another thread's feet (Isolated), cells never hold a *)
(* wrong hash (Fresh), and no thread waits forever (absence of deadlock    *)
(* and Finishes).                                                          *)
(*                                                                         *)
(* IOEnv.DESIGN = "own" is the design of the implementation.  The others   *)
(* must fail: "shared" (copies share the cell of the root), "inplace" (a   *)
(* write changes the shared sub-trie), "upgrade" (the read lock is kept    *)
(* while the cell is written), "reread" (the lock is taken again while it  *)
(* is held), "compare" (tries are compared under the locks of both).       *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.CASES)          \* [univ, cases]
U == In.univ
Cases == In.cases                           \* [u, warm, base, progs]
Design == IOEnv.DESIGN
Emitting == IOEnv.EMIT = "1"

VARIABLES c,     \* the case
          heap,  \* sub-trie -> contents
          kid,   \* trie -> its sub-tries
          root,  \* trie -> the cell of its root
          cell,  \* node -> cached hash
          lock,  \* node -> [w, r, q]: writer, readers, waiting writers
          stk,   \* thread -> calls in progress
          pc,    \* thread -> position in its program
          res    \* thread -> results so far
vars == <<c, heap, kid, root, cell, lock, stk, pc, res>>

Keys == U[Cases[c].u].keys
Ents == U[Cases[c].u].ents
Threads == 1..Len(Cases[c].progs)
Prog(t) == Cases[c].progs[t]
None == <<"none">>

(* ------------------------------- contents -------------------------------- *)
NK == Len(Keys)
Heads == {Keys[i][1] : i \in 1..NK}
Part(x, h) == [i \in 1..NK |-> IF Keys[i][1] = h THEN x[i] ELSE 0]
Whole(parts) == [i \in 1..NK |-> parts[Keys[i][1]][i]]
Contents(t) == Whole([h \in Heads |-> heap[kid[t][h]]])

\* what the thread gets running alone: contents before its n-th operation
RECURSIVE Alone(_, _)
Alone(t, n) ==
    IF n = 1 THEN Cases[c].base
    ELSE LET x == Alone(t, n - 1)
             o == Prog(t)[n - 1]
         IN CASE o.op = "ins" -> [x EXCEPT ![o.i] = o.j]
              [] o.op = "del" -> [x EXCEPT ![o.i] = 0]
              [] o.op = "clone" -> Cases[c].base
              [] OTHER -> x
\* a hash is represented by what was hashed
HashOf(x) == [h \in Heads |-> Part(x, h)]
SubOf(x, i) == [h \in Heads \ {Keys[i][1]} |-> Part(x, h)]
Expected(t, n) ==
    LET x == Alone(t, n)
        o == Prog(t)[n]
    IN CASE o.op = "hash" -> HashOf(x)
         [] o.op = "hashbase" -> HashOf(Cases[c].base)
         [] o.op = "hashkid" -> Part(Cases[c].base, Keys[o.i][1])
         [] o.op = "sub" -> SubOf(x, o.i)
         [] o.op = "get" -> x[o.i]
         [] o.op \in {"items", "save"} -> x
         [] o.op = "savebase" -> Cases[c].base
         [] o.op = "eq" -> x = Cases[c].base
         [] o.op = "del" -> x[o.i]
         [] OTHER -> 0

(* -------------------------------- memory --------------------------------- *)
FreeLock == [w |-> 0, r |-> {}, q |-> {}]
BaseKid(h) == <<0, h>>
RootCell(t) == <<-1, t>>

Init ==
    /\ c \in 1..Len(Cases)
    /\ LET T == 0..Len(Cases[c].progs)
           b == Cases[c].base
       IN /\ heap = [id \in {BaseKid(h) : h \in Heads} |-> Part(b, id[2])]
          /\ kid = [t \in T |-> [h \in Heads |-> BaseKid(h)]]
          /\ root = [t \in T |-> IF Design = "shared" THEN RootCell(0) ELSE RootCell(t)]
          /\ cell = [id \in {BaseKid(h) : h \in Heads} \cup {RootCell(t) : t \in T} |->
                        IF Cases[c].warm = 0 THEN None
                        ELSE IF id[1] = -1 THEN HashOf(b) ELSE Part(b, id[2])]
          /\ lock = [id \in DOMAIN cell |-> FreeLock]
    /\ stk = [t \in Threads |-> <<>>]
    /\ pc = [t \in Threads |-> 1]
    /\ res = [t \in Threads |-> <<>>]

(* --------------------------------- steps --------------------------------- *)
\* a call that computes the hash of the node `id` of which `kids` are to be
\* hashed first (a function from first nibbles), `acc` being their hashes
Frame(at, id, kids) == [at |-> at, id |-> id, kids |-> kids, acc |-> <<>>, held |-> FALSE]
RootFrame(t) == Frame("rd", root[t], kid[t])
KidFrame(id) == Frame("rd", id, <<>>)

Top(t) == stk[t][Len(stk[t])]
SetTop(t, f) == [stk EXCEPT ![t] = Append(SubSeq(@, 1, Len(@) - 1), f)]

\* the operation of thread t is over with result v
EndOp(t, v) == /\ res' = [res EXCEPT ![t] = Append(@, v)]
               /\ pc' = [pc EXCEPT ![t] = @ + 1]
               /\ stk' = [stk EXCEPT ![t] = <<>>]

\* the call on top returns v
Return(t, v) ==
    LET n == Len(stk[t]) IN
    IF n = 1 THEN EndOp(t, v)
    ELSE LET f == stk[t][n - 1]
             h == CHOOSE g \in DOMAIN f.kids : f.kids[g] = stk[t][n].id
             g == [f EXCEPT !.acc = Put(f.acc, h, v), !.kids = Remove(f.kids, h)]
         IN /\ stk' = [stk EXCEPT ![t] = Append(SubSeq(@, 1, n - 2), g)]
            /\ UNCHANGED <<res, pc>>

Begin(t) ==
    /\ stk[t] = <<>> /\ pc[t] <= Len(Prog(t))
    /\ UNCHANGED <<c, root>>
    /\ LET o == Prog(t)[pc[t]]
           h == Keys[o.i][1]
           fresh == <<t, pc[t]>>
           start(f) == stk' = [stk EXCEPT ![t] = <<f>>] /\ UNCHANGED <<heap, kid, cell, lock, pc, res>>
       IN CASE o.op = "hash" -> start(RootFrame(t))
            [] o.op = "hashbase" -> start(RootFrame(0))
            [] o.op = "hashkid" -> start(Frame("rdkid", kid[0][h], <<>>))
            [] o.op = "sub" -> start(Frame("sub", root[t], [g \in Heads \ {h} |-> kid[t][g]]))
            [] o.op = "clone" -> start(Frame("clone", root[0], <<>>))
            [] o.op = "get" -> EndOp(t, Contents(t)[o.i]) /\ UNCHANGED <<heap, kid, cell, lock>>
            [] o.op = "items" -> EndOp(t, Contents(t)) /\ UNCHANGED <<heap, kid, cell, lock>>
            [] o.op = "save" -> start(Frame("save", root[t], kid[t]))
            [] o.op = "savebase" -> start(Frame("save", root[0], kid[0]))
            [] o.op = "eq" ->
                IF Design = "compare" THEN start(Frame("eq", root[t], kid[t]))
                ELSE EndOp(t, Contents(t) = Contents(0)) /\ UNCHANGED <<heap, kid, cell, lock>>
            [] o.op \in {"ins", "del"} ->
                LET part == [heap[kid[t][h]] EXCEPT ![o.i] = IF o.op = "ins" THEN o.j ELSE 0]
                    id == IF Design = "inplace" THEN kid[t][h] ELSE fresh
                    f == Frame("clear", root[t], <<>>)
                    old == Contents(t)[o.i]
                IN /\ heap' = Put(heap, id, part)
                   /\ cell' = Put(cell, id, None)
                   /\ lock' = Put(lock, id, FreeLock)
                   /\ kid' = [kid EXCEPT ![t][h] = id]
                   /\ stk' = [stk EXCEPT ![t] = <<[f EXCEPT !.acc = IF o.op = "del" THEN old ELSE 0]>>]
                   /\ UNCHANGED <<pc, res>>

MayRead(id) == lock[id].w = 0 /\ lock[id].q = {}
MayWrite(id, t) == lock[id].w = 0 /\ lock[id].r = {} /\ t \in lock[id].q
Queue(id, t) == lock' = [lock EXCEPT ![id].q = @ \cup {t}]
Unqueue(id, t) == [lock EXCEPT ![id].q = @ \ {t}, ![id].r = @ \ {t}]

\* looks into the cell
Read(t) ==
    LET f == Top(t) IN
    /\ f.at = "rd" /\ MayRead(f.id)
    /\ UNCHANGED <<c, heap, kid, root, cell>>
    /\ IF cell[f.id] # None
       THEN lock' = lock /\ Return(t, cell[f.id])
       ELSE /\ lock' = IF Design \in {"upgrade", "reread"} THEN [lock EXCEPT ![f.id].r = @ \cup {t}] ELSE lock
            /\ stk' = SetTop(t, [f EXCEPT !.at = IF Design = "reread" THEN "again" ELSE "kids"])
            /\ UNCHANGED <<pc, res>>

\* a sub-trie of the base on its own: its cell is read but not filled
ReadKid(t) ==
    LET f == Top(t) IN
    /\ f.at = "rdkid" /\ MayRead(f.id)
    /\ EndOp(t, IF cell[f.id] # None THEN cell[f.id] ELSE heap[f.id])
    /\ UNCHANGED <<c, heap, kid, root, cell, lock>>

Again(t) ==
    LET f == Top(t) IN
    /\ f.at = "again" /\ MayRead(f.id)
    /\ lock' = [lock EXCEPT ![f.id].r = @ \ {t}]
    /\ stk' = SetTop(t, [f EXCEPT !.at = "kids"])
    /\ UNCHANGED <<c, heap, kid, root, cell, pc, res>>

\* hashes the sub-tries one after the other, or this node if all are done
Descend(t) ==
    LET f == Top(t) IN
    /\ f.at \in {"kids", "sub"}
    /\ UNCHANGED <<c, heap, kid, root, cell>>
    /\ IF DOMAIN f.kids # {}
       THEN /\ LET h == CHOOSE g \in DOMAIN f.kids : \A k \in DOMAIN f.kids : g <= k
               IN stk' = [stk EXCEPT ![t] = Append(@, KidFrame(f.kids[h]))]
            /\ UNCHANGED <<lock, pc, res>>
       ELSE IF f.at = "sub" THEN Return(t, f.acc) /\ lock' = lock
       ELSE /\ Queue(f.id, t)
            /\ stk' = SetTop(t, [f EXCEPT !.at = "wr"])
            /\ UNCHANGED <<pc, res>>

\* stores the hash
Store(t) ==
    LET f == Top(t)
        v == IF f.id[1] = -1 THEN f.acc ELSE heap[f.id]
    IN /\ f.at = "wr" /\ MayWrite(f.id, t)
       /\ cell' = [cell EXCEPT ![f.id] = v]
       /\ lock' = Unqueue(f.id, t)
       /\ Return(t, v)
       /\ UNCHANGED <<c, heap, kid, root>>

\* empties the cell of the root after a write
Clear(t) ==
    LET f == Top(t) IN
    /\ f.at = "clear"
    /\ UNCHANGED <<c, heap, kid, root>>
    /\ IF t \notin lock[f.id].q
       THEN Queue(f.id, t) /\ UNCHANGED <<cell, stk, pc, res>>
       ELSE /\ MayWrite(f.id, t)
            /\ cell' = [cell EXCEPT ![f.id] = None]
            /\ lock' = Unqueue(f.id, t)
            /\ EndOp(t, f.acc)

\* the trie of t becomes a copy of the base
Copy(t) ==
    LET f == Top(t) IN
    /\ f.at = "clone" /\ MayRead(f.id)
    /\ kid' = [kid EXCEPT ![t] = kid[0]]
    /\ cell' = IF Design = "shared" THEN cell ELSE [cell EXCEPT ![root[t]] = cell[f.id]]
    /\ EndOp(t, 0)
    /\ UNCHANGED <<c, heap, root, lock>>

\* writes the trie down: the sub-tries with their cells, then the cell of the
\* root, each under its own lock; what is read back holds these cells
Save(t) ==
    LET f == Top(t)
        more == DOMAIN f.kids # {}
        h == CHOOSE g \in DOMAIN f.kids : \A k \in DOMAIN f.kids : g <= k
        id == IF more THEN f.kids[h] ELSE f.id
        x == IF Prog(t)[pc[t]].op = "save" THEN Contents(t) ELSE Contents(0)
        fresh == \A g \in DOMAIN f.acc : f.acc[g] \in {None, Part(x, g)}
    IN /\ f.at = "save" /\ MayRead(id)
       /\ UNCHANGED <<c, heap, kid, root, cell, lock>>
       /\ IF more
          THEN /\ stk' = SetTop(t, [f EXCEPT !.kids = Remove(@, h), !.acc = Put(@, h, cell[id])])
               /\ UNCHANGED <<pc, res>>
          ELSE EndOp(t, IF fresh /\ cell[id] \in {None, HashOf(x)} THEN x ELSE <<"stale">>)

\* compares the sub-tries with those of the base, holding the locks of both
Compare(t) ==
    LET f == Top(t)
        h == CHOOSE g \in DOMAIN f.kids : \A k \in DOMAIN f.kids : g <= k
        a == kid[t][h]
        b == kid[0][h]
    IN /\ f.at \in {"eq", "eq2"}
       /\ UNCHANGED <<c, heap, kid, root, cell>>
       /\ IF DOMAIN f.kids = {}
          THEN EndOp(t, Contents(t) = Contents(0)) /\ lock' = lock
          ELSE IF f.at = "eq"
          THEN /\ MayRead(a)
               /\ lock' = [lock EXCEPT ![a].r = @ \cup {t}]
               /\ stk' = SetTop(t, [f EXCEPT !.at = "eq2"])
               /\ UNCHANGED <<pc, res>>
          ELSE /\ MayRead(b)
               /\ lock' = [lock EXCEPT ![a].r = @ \ {t}]
               /\ stk' = SetTop(t, [f EXCEPT !.at = "eq", !.kids = Remove(@, h)])
               /\ UNCHANGED <<pc, res>>

Step(t) ==
    \/ Begin(t)
    \/ /\ stk[t] # <<>>
       /\ \/ Read(t) \/ Again(t) \/ Descend(t) \/ Store(t) \/ Clear(t) \/ Copy(t)
          \/ Save(t) \/ Compare(t) \/ ReadKid(t)
AllDone == \A t \in Threads : pc[t] > Len(Prog(t))
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in 1..3 : WF_vars(t \in Threads /\ Step(t))

(* ------------------------------ properties ------------------------------- *)
Sequential == \A t \in Threads : \A n \in 1..Len(res[t]) : res[t][n] = Expected(t, n)
Isolated ==
    /\ Contents(0) = Cases[c].base
    /\ \A t \in Threads : stk[t] = <<>> => Contents(t) = Alone(t, pc[t])
Fresh ==
    /\ \A id \in DOMAIN heap : cell[id] \in {None, heap[id]}
    /\ \A t \in Threads : stk[t] = <<>> => cell[root[t]] \in {None, HashOf(Contents(t))}
    /\ cell[root[0]] \in {None, HashOf(Cases[c].base)}
Finishes == <>AllDone

\* the results to be observed on the implementation
EntX(x) ==
    LET D == {i \in 1..NK : x[i] # 0}
        K == {Keys[i] : i \in D}
    IN [k \in K |-> Ents[x[CHOOSE i \in D : Keys[i] = k]]]
Observed(t, n) ==
    LET o == Prog(t)[n]
        x == Alone(t, n)
        none == [r |-> "none", v |-> <<>>]
        val(z) == IF z = 0 THEN none ELSE [r |-> "some", v |-> Hex(Ents[z].b)]
    IN CASE o.op = "hash" -> [r |-> "hash", v |-> Hex(RootHash(Canon(EntX(x))))]
         [] o.op = "hashbase" -> [r |-> "hash", v |-> Hex(RootHash(Canon(EntX(Cases[c].base))))]
         [] o.op = "hashkid" ->
                LET m == Canon(EntX(Cases[c].base))
                IN [r |-> "hash", v |-> Hex(RootHash(IF m.t = "B" THEN m.c[Keys[o.i][1] + 1] ELSE m))]
         [] o.op = "sub" -> [r |-> "tree", v |-> Brief(Sub(Canon(EntX(x)), {Keys[o.i]}))]
         [] o.op \in {"items", "save"} -> [r |-> "tree", v |-> Brief(Canon(EntX(x)))]
         [] o.op = "savebase" -> [r |-> "tree", v |-> Brief(Canon(EntX(Cases[c].base)))]
         [] o.op = "eq" -> [r |-> IF x = Cases[c].base THEN "yes" ELSE "no", v |-> <<>>]
         [] o.op \in {"get", "del"} -> val(x[o.i])
         [] OTHER -> none
Emit ==
    (Emitting /\ \A t \in Threads : pc[t] = 1 /\ stk[t] = <<>>) =>
        PrintT(ToJson([q |-> "P", c |-> c, u |-> Cases[c].u, warm |-> Cases[c].warm,
            base |-> Brief(Canon(EntX(Cases[c].base))), progs |-> Cases[c].progs,
            want |-> [t \in Threads |-> [n \in 1..Len(Prog(t)) |-> Observed(t, n)]]]))
=============================================================================
