------------------------------ MODULE TppCore ------------------------------
(***************************************************************************)
(* The abstract data type behind every container of tpp.                   *)
(*                                                                         *)
(* A container is a sequence of elements plus its functors and allocator.  *)
(* An element is a tuple <<k1, .., kn, v, p>>: its keys (one, or nk for    *)
(* the multi-key containers), its mapped value (0 for sets) and its        *)
(* address p (0 for containers that may move elements, -1 = any address).  *)
(*                                                                         *)
(* For the ordered containers the sequence is the insertion order; for the *)
(* others its order is the iteration order, which is only known once it    *)
(* has been observed, so that operators on them are used modulo order.     *)
(*                                                                         *)
(* F is the container family: a record with                                *)
(*   nk      number of keys of an element                                  *)
(*   map     elements have a mapped value                                  *)
(*   ord     insertion order is preserved                                  *)
(*   stable  elements have a fixed address                                 *)
(*   dense   elements are stored contiguously                              *)
(*   pol     allocator policy: -1 stateless, else bits 1 POCCA, 2 POCMA,   *)
(*           4 POCS, 8 select_on_container_copy_construction yields id 9   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Wild == -1                                   \* an address that is not determined

\* The key comparison functor: in mode 1 keys are equal modulo 1000.
KeyEq(mode, a, b) == IF mode = 1 THEN (a % 1000) = (b % 1000) ELSE a = b
Norm(mode, k) == IF mode = 1 THEN k % 1000 ELSE k

Bit(pol, b) == pol >= 0 /\ (pol \div b) % 2 = 1

Vof(F, e) == e[F.nk + 1]
Pof(F, e) == e[F.nk + 2]
WithV(F, e, v) == [e EXCEPT ![F.nk + 1] = v]
WithP(F, e, p) == [e EXCEPT ![F.nk + 2] = p]
Strip(F, e) == SubSeq(e, 1, F.nk + 1)         \* keys and value
KeysOf(F, e) == SubSeq(e, 1, F.nk)
StripAll(F, es) == {Strip(F, es[i]) : i \in 1..Len(es)}
Fresh(F, es) == IF F.stable THEN [i \in DOMAIN es |-> WithP(F, es[i], Wild)] ELSE es
New(F, e) == WithP(F, e, IF F.stable THEN Wild ELSE 0)

\* Positions of the elements that have one of their keys in common with e.
ConfIdx(F, mode, es, e) == {i \in 1..Len(es) : \E j \in 1..F.nk : KeyEq(mode, es[i][j], e[j])}
Conflict(F, mode, es, e) == \E i \in 1..Len(es) : \E j \in 1..F.nk : KeyEq(mode, es[i][j], e[j])
\* Position of the element whose j-th key equals k, 0 when there is none.
FindIdx(mode, es, j, k) ==
    LET S == {i \in 1..Len(es) : KeyEq(mode, es[i][j], k)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* Where a new element goes. hint: 0 none, 1..Len the hinted element, Len+1 end().
InsertPos(F, es, hint) == IF ~F.ord \/ hint = 0 THEN Len(es) + 1 ELSE IF hint = Len(es) + 1 THEN 1 ELSE hint + 1
InsertAtPos(es, i, e) == SubSeq(es, 1, i - 1) \o <<e>> \o SubSeq(es, i, Len(es))
Insert(F, mode, es, hint, e) ==
    IF Conflict(F, mode, es, e) THEN es ELSE InsertAtPos(es, InsertPos(F, es, hint), New(F, e))
\* insert_or_assign & co (single-key maps): the value is replaced, key and position stay.
Assign(F, mode, es, hint, e) ==
    LET i == FindIdx(mode, es, 1, e[1]) IN
    IF i = 0 THEN InsertAtPos(es, InsertPos(F, es, hint), New(F, e)) ELSE [es EXCEPT ![i] = WithV(F, @, Vof(F, e))]
\* Insertion of a sequence of elements one by one: the first of equal keys wins.
InsertMany(F, mode, es, xs) == FoldLeft(LAMBDA acc, x : Insert(F, mode, acc, 0, x), es, xs)
\* A node keeps its address.
InsertNode(F, mode, es, hint, e) ==
    IF Conflict(F, mode, es, e) THEN es ELSE InsertAtPos(es, InsertPos(F, es, hint), e)

RemoveAt1(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
RemoveRange(es, a, b) == SubSeq(es, 1, a - 1) \o SubSeq(es, b, Len(es))      \* [a, b)
EraseKey(mode, es, j, k) == LET i == FindIdx(mode, es, j, k) IN IF i = 0 THEN es ELSE RemoveAt1(es, i)
Doomed(e, m, r) == (e[1] % 1000) % m = r                                      \* predicate used for erase_if
EraseIf(es, m, r) == SelectSeq(es, LAMBDA e : ~Doomed(e, m, r))

\* merge: the elements of src whose keys are absent in dst move, in order; the others stay.
\* Elements of src with equal keys (src may compare keys differently): the first one moves.
MergeBoth(F, mode, dst, src) ==
    FoldLeft(LAMBDA acc, x : IF Conflict(F, mode, acc[1], x) THEN <<acc[1], Append(acc[2], x)>>
                             ELSE <<Append(acc[1], x), acc[2]>>, <<dst, <<>>>>, src)
MergeDst(F, mode, dst, src) == MergeBoth(F, mode, dst, src)[1]
MergeSrc(F, mode, dst, src) == MergeBoth(F, mode, dst, src)[2]

\* Equality of contents: same elements (exact keys and values), any order.
SameContents(F, a, b) == Len(a) = Len(b) /\ StripAll(F, a) = StripAll(F, b)

\* Allocator of a copy / after an assignment or swap.
CopyAlloc(pol, a) == IF Bit(pol, 8) THEN 9 ELSE a
AssignAlloc(pol, bit, own, other) == IF Bit(pol, bit) THEN other ELSE own

\* No two elements share a key: the key sets are as large as the container.
Unique(F, mode, es) == \A j \in 1..F.nk : Cardinality({Norm(mode, es[i][j]) : i \in 1..Len(es)}) = Len(es)
=============================================================================
