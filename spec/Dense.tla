------------------------------- MODULE Dense -------------------------------
(***************************************************************************)
(* The table behind the dense containers (tpp/detail/dense_table.hpp), one *)
(* level below TppCore: a vector of elements, and for each of the NK keys  *)
(* of an element a bucket array of singly linked chains of positions. A    *)
(* new element is put in front of its chains. An erased element is         *)
(* replaced with the last one, whose chains then have to be redirected.    *)
(* In ordered tables the elements are linked in insertion order; the links *)
(* are kept here as the sequence of the positions.                         *)
(*                                                                         *)
(* es is the abstract container of TppCore under the same operations       *)
(* (history variable); invariant Refines relates the two. Mutant selects   *)
(* a deliberately wrong variant (vacuity check).                           *)
(***************************************************************************)
EXTENDS TppCore, TLC, Json

CONSTANTS NK, NKeys, Ordered, HashFile, MaxB, Mlfs, Mutant

Hashes == JsonDeserialize(HashFile)      \* << << h, .. one per key .. >>, .. one per hash function .. >>
Keys == 1..NKeys
Js == 1..NK
F == [nk |-> NK, map |-> FALSE, ord |-> Ordered, stable |-> FALSE, dense |-> TRUE, u |-> 0, eqv |-> 0, pol |-> 0]
El(ks) == ks \o <<0, 0>>

VARIABLES hf,      \* the hash function: index into Hashes
          t,       \* the table: d (sequence of [k, nx]), b (bucket -> j -> head), ord, mlf, ok (load within bounds)
          es,      \* the abstract container
          op       \* label of the last operation
vars == <<hf, t, es, op>>

H(k) == Hashes[hf][k]
NB(x) == Len(x.b)
Buck(x, k) == (H(k) % NB(x)) + 1
CeilDiv(a, b) == (a + b - 1) \div b
Cap(nb, mlf) == (nb * mlf) \div 1000                     \* elements that fit into nb buckets
MinB(n, mlf) == CeilDiv(n * 1000, mlf)                   \* the least number of buckets for n elements
MaxOf(a, b) == IF a > b THEN a ELSE b

Empty0 == [d |-> <<>>, b |-> <<>>, ord |-> <<>>, mlf |-> 875, ok |-> TRUE]
NoHeads(n) == [i \in 1..n |-> [j \in Js |-> 0]]

\* Puts position p in front of its chains.
Link(x, p) ==
    [x EXCEPT !.d[p].nx = [j \in Js |-> x.b[Buck(x, x.d[p].k[j])][j]],
              !.b = [c \in DOMAIN x.b |-> [j \in Js |-> IF c = Buck(x, x.d[p].k[j]) THEN p ELSE x.b[c][j]]]]
Rebuild(x, nb) == FoldLeft(LAMBDA acc, p : Link(acc, p), [x EXCEPT !.b = NoHeads(nb)], [i \in 1..Len(x.d) |-> i])
DoRehash(x, nb) == [Rebuild(x, nb) EXCEPT !.ok = (Len(x.d) <= Cap(nb, x.mlf))]
Rehash(x, n) ==
    IF n = 0 /\ x.d = <<>> THEN x
    ELSE LET c == MaxOf(MinB(Len(x.d), x.mlf), n) IN IF n = 0 \/ c > NB(x) THEN DoRehash(x, c) ELSE x
Reserve(x, n) == Rehash(x, MinB(n, x.mlf))
Grow(x) ==
    IF NB(x) = 0 THEN Rehash(x, MaxOf(MinB(1, x.mlf), 8))
    ELSE IF Len(x.d) + 1 > Cap(NB(x), x.mlf) THEN Rehash(x, MaxOf(MinB(Len(x.d) + 1, x.mlf), 2 * NB(x)))
    ELSE x

\* Lookup by the j-th key along its chain; 0 when there is none.
RECURSIVE Walk(_, _, _, _, _)
Walk(x, j, k, p, n) == IF p = 0 \/ n > Len(x.d) THEN (IF p = 0 THEN 0 ELSE -1)
                       ELSE IF x.d[p].k[j] = k THEN p ELSE Walk(x, j, k, x.d[p].nx[j], n + 1)
Find(x, j, k) == IF NB(x) = 0 THEN 0 ELSE Walk(x, j, k, x.b[Buck(x, k)][j], 0)

\* The new element is appended after the table has grown, then linked into its chains and the order.
InsertE(x, ks, pos) ==
    IF \E j \in Js : Find(x, j, ks[j]) # 0 THEN x
    ELSE LET y == Grow(x)  n == Len(y.d) + 1
             z == [y EXCEPT !.d = Append(@, [k |-> ks, nx |-> [j \in Js |-> 0]])] IN
         [Link(z, n) EXCEPT !.ord = InsertAtPos(@, pos, n)]

\* Redirects what points to position p in the j-th chain of key k.
Redirect(x, j, k, p, q) ==
    LET c == Buck(x, k) IN
    IF x.b[c][j] = p THEN [x EXCEPT !.b[c][j] = q]
    ELSE LET S == {i \in DOMAIN x.d : x.d[i].nx[j] = p} IN IF S = {} THEN x ELSE [x EXCEPT !.d[CHOOSE i \in S : TRUE].nx[j] = q]
MJs == IF Mutant = "movefirst" THEN {1} ELSE Js
UJs(j0) == IF Mutant = "unlinkone" /\ j0 > 0 THEN {j0} ELSE Js
\* Erases the element at position p (found by its j0-th key, 0: by an iterator).
EraseP(x, p, j0) ==
    LET e == x.d[p]  n == Len(x.d)
        y0 == FoldLeft(LAMBDA acc, j : IF j \in UJs(j0) THEN Redirect(acc, j, e.k[j], p, e.nx[j]) ELSE acc, x, [j \in Js |-> j])
        y == [y0 EXCEPT !.d[p].nx = [j \in Js |-> 0]]         \* it is on no chain any more
        z == IF p = n THEN y
             ELSE LET w == FoldLeft(LAMBDA acc, j : IF j \in MJs THEN Redirect(acc, j, x.d[n].k[j], n, p) ELSE acc, y, [j \in Js |-> j]) IN
                  [w EXCEPT !.d[p] = w.d[n]] IN
    [z EXCEPT !.d = SubSeq(@, 1, n - 1),
              !.ord = [i \in 1..(n - 1) |-> LET q == SelectSeq(x.ord, LAMBDA r : r # p)[i] IN IF q = n /\ Mutant # "ordstale" THEN p ELSE q],
              !.ok = (x.ok \/ n - 1 <= Cap(NB(x), x.mlf))]
ClearT(x) == [x EXCEPT !.d = <<>>, !.b = NoHeads(NB(x)), !.ord = <<>>, !.ok = TRUE]
CopyT(x) == IF x.d = <<>> THEN [Empty0 EXCEPT !.mlf = x.mlf] ELSE Rebuild(x, NB(x))
Visit(x) == IF Ordered THEN [i \in 1..Len(x.ord) |-> x.d[x.ord[i]].k] ELSE [i \in 1..Len(x.d) |-> x.d[i].k]
Keys0(s) == [i \in 1..Len(s) |-> KeysOf(F, s[i])]

-----------------------------------------------------------------------------
Init == hf \in 1..Len(Hashes) /\ t = Empty0 /\ es = <<>> /\ op = <<"init", <<>>, 0>>

Ins(ks, hint) ==
    LET pos == InsertPos(F, es, hint) IN
    /\ t' = InsertE(t, ks, pos)
    /\ es' = Insert(F, 0, es, hint, El(ks)) /\ op' = <<"i", ks, hint>>
EraK(j, k) ==
    LET p == Find(t, j, k) IN
    /\ t' = IF p <= 0 THEN t ELSE EraseP(t, p, j)
    /\ es' = EraseKey(0, es, j, k) /\ op' = <<"e", <<k>>, j>>
EraI(p) ==
    /\ t' = EraseP(t, p, 0)
    /\ es' = EraseKey(0, es, 1, t.d[p].k[1]) /\ op' = <<"d", <<t.d[p].k[1]>>, 0>>
Clr == t' = ClearT(t) /\ es' = <<>> /\ op' = <<"c", <<>>, 0>>
Reh(n) == t' = Rehash(t, n) /\ es' = es /\ op' = <<"h", <<>>, n>>
Rsv(n) == t' = Reserve(t, n) /\ es' = es /\ op' = <<"r", <<>>, n>>
Mlf(f) == f # t.mlf /\ t' = [t EXCEPT !.mlf = f, !.ok = (Len(t.d) <= Cap(NB(t), f))] /\ es' = es /\ op' = <<"m", <<>>, f>>
Cpy == t' = CopyT(t) /\ es' = es /\ op' = <<"y", <<>>, 0>>

\* Keys with the same hash are interchangeable (per component): states that differ only by a permutation of them are not told
\* apart, and of those that are absent only the least one is inserted.
ClassOf(k) == CHOOSE m \in Keys : Hashes[hf][m] = Hashes[hf][k] /\ \A j \in Keys : Hashes[hf][j] = Hashes[hf][k] => m <= j
Has(j, k) == \E i \in DOMAIN t.d : t.d[i].k[j] = k
Least(j, k) == Has(j, k) \/ \A m \in Keys : (m < k /\ ClassOf(m) = ClassOf(k)) => Has(j, m)
Tuples == IF NK = 1 THEN {<<a>> : a \in Keys} ELSE IF NK = 2 THEN {<<a, b>> : a, b \in Keys} ELSE {<<a, b, c>> : a, b, c \in Keys}
View == <<hf, t.mlf, t.ok, t.b, t.ord, [i \in DOMAIN t.d |-> <<[j \in Js |-> ClassOf(t.d[i].k[j])], t.d[i].nx>>]>>
Next ==
    /\ \/ \E ks \in Tuples : (\A j \in Js : Least(j, ks[j])) /\ (Ins(ks, 0) \/ (Ordered /\ \E h \in 1..(Len(es) + 1) : Ins(ks, h)))
       \/ \E j \in Js : \E k \in Keys : Least(j, k) /\ (EraK(j, k))
       \/ \E p \in DOMAIN t.d : EraI(p)
       \/ Clr \/ Reh(0) \/ Cpy
       \/ \E n \in {3, MaxB} : Reh(n)
       \/ \E n \in {4} : Cap(MaxB, t.mlf) >= n /\ Rsv(n)
       \/ \E f \in Mlfs : Mlf(f)
    /\ UNCHANGED hf
Spec == Init /\ [][Next]_vars
Bound == Len(t'.b) <= MaxB
Graph == Bound /\ PrintT(ToString(<<"G", hf, View, [i \in DOMAIN t.d |-> t.d[i].k], op', View', [i \in DOMAIN t'.d |-> t'.d[i].k]>>))

-----------------------------------------------------------------------------
Pos == DOMAIN t.d
RECURSIVE Chain(_, _, _)
Chain(j, p, n) == IF p = 0 \/ n = 0 THEN <<>> ELSE <<p>> \o Chain(j, t.d[p].nx[j], n - 1)
\* Every bucket lists, once each, the positions whose hash belongs there.
Chains == \A j \in Js : \A c \in 1..NB(t) :
    LET s == Chain(j, t.b[c][j], Len(t.d) + 1) IN
    /\ Range(s) = {p \in Pos : Buck(t, t.d[p].k[j]) = c}
    /\ Len(s) = Cardinality(Range(s))
Heads == Len(t.d) > 0 => NB(t) > 0
Lookup == \A j \in Js : \A k \in Keys : LET p == Find(t, j, k) IN
    IF FindIdx(0, es, j, k) = 0 THEN p = 0 ELSE p > 0 /\ t.d[p].k = KeysOf(F, es[FindIdx(0, es, j, k)])
Links == Ordered => (Len(t.ord) = Len(t.d) /\ Range(t.ord) = Pos)
Refines == /\ Len(t.d) = Len(es)
           /\ IF Ordered THEN Visit(t) = Keys0(es) ELSE Range(Visit(t)) = Range(Keys0(es))
Load == t.ok => Len(t.d) <= Cap(NB(t), t.mlf)
Inv == Heads /\ Chains /\ Lookup /\ Links /\ Refines /\ Load /\ Unique(F, 0, es)
=============================================================================
