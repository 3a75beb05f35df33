------------------------------- MODULE Swiss -------------------------------
(***************************************************************************)
(* The open-addressing table behind the sparse and stable containers       *)
(* (tpp/detail/swiss_table.hpp), one level below TppCore.                  *)
(*                                                                         *)
(* A table of capacity c = 2^n - 1 has slots 0..c-1 and a metadata byte    *)
(* per slot: Empty, Deleted, or the 7-bit fragment h2 of the hash of the   *)
(* element stored there. Byte c is the sentinel, the bytes after it mirror *)
(* the first B - 1 ones, so that a block of B bytes can be read at every   *)
(* position. Lookups and insertions probe blocks at triangular distances   *)
(* from h1 & c. Erasing leaves a tombstone; tombstones are reclaimed by an *)
(* in-place rehash or by growing.                                          *)
(*                                                                         *)
(* The history variable es is the state of the abstract container of       *)
(* TppCore under the same operations: invariant Refines says that the      *)
(* table always represents it.                                             *)
(*                                                                         *)
(* B is 16 (SSE) or 8 (portable) in the implementation; smaller values     *)
(* keep the structure and make exhaustive exploration possible.            *)
(* Mutant selects a deliberately wrong variant (vacuity check); "" is the  *)
(* real algorithm.                                                         *)
(***************************************************************************)
EXTENDS TppCore, TLC, Json

CONSTANTS B, NKeys, Ordered, HashFile, MaxCap, Mutant

Hashes == JsonDeserialize(HashFile)      \* << << <<h1, h2>>, .. one per key .. >>, .. one per hash function .. >>
Keys == 1..NKeys
F == [nk |-> 1, map |-> FALSE, ord |-> Ordered, stable |-> FALSE, dense |-> FALSE, u |-> 0, eqv |-> 0, pol |-> 0]
El(k) == <<k, 0, 0>>

VARIABLES hf,      \* the hash function: index into Hashes
          t,       \* the table
          es,      \* the abstract container (history variable)
          op,      \* label of the last operation
          mode     \* bias of the random walk used to generate histories
vars == <<hf, t, es, op, mode>>

E == -1  D == -2  S == -3
Occ(m) == m >= 0
H1(h, k) == Hashes[h][k][1]
H2(h, k) == Hashes[h][k][2]
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y

\* Sizes. Tables that are mirrored completely inside one block may be full, as some bytes of the block stay empty.
MaxSize(c) == IF c < 8 THEN (IF 2 * c + 2 <= B \/ c = 0 THEN c ELSE c - 1) ELSE c - c \div 8
MinCap(n) == IF n = 0 THEN 0 ELSE IF n < 8 /\ n > MaxSize(n) THEN n + 1 ELSE n + ((n - 1) \div 7)
RECURSIVE Align(_, _)
Align(n, c) == IF c >= n /\ c > 0 THEN c ELSE Align(n, 2 * c + 1)    \* the least 2^x - 1 >= n (1 for 0)

FreshMeta(c) == [i \in 0..(c + B - 1) |-> IF i = c THEN S ELSE E]
Fresh0(c) == [cap |-> c, meta |-> IF c = 0 THEN <<>> ELSE FreshMeta(c), node |-> [i \in 0..(c - 1) |-> 0], ne |-> MaxSize(c), size |-> 0, ord |-> <<>>]
SetMeta(x, p, v) ==
    [x EXCEPT !.meta[((p - (B - 1)) % (x.cap + 1)) + ((B - 1) % (x.cap + 1))] = IF Mutant = "nomirror" THEN @ ELSE v, !.meta[p] = v]

\* Both probes yield -1 when they pass over the whole table without an answer (an assertion of the implementation).
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(x, h, k, pos, idx) ==
    LET M == {i \in 0..(B - 1) : x.meta[pos + i] = H2(h, k) /\ x.node[(pos + i) % (x.cap + 1)] = k} IN
    IF M # {} THEN (pos + MinOf(M)) % (x.cap + 1)
    ELSE IF \E i \in 0..(B - 1) : x.meta[pos + i] = E THEN x.cap
    ELSE IF idx >= x.cap THEN -1
    ELSE FindFrom(x, h, k, (pos + idx + B) % (x.cap + 1), idx + B)
Find(x, h, k) == IF x.size = 0 THEN x.cap ELSE FindFrom(x, h, k, H1(h, k) % (x.cap + 1), 0)

RECURSIVE AvailFrom(_, _, _)
AvailFrom(x, pos, idx) ==
    LET M == {i \in 0..(B - 1) : x.meta[pos + i] \in {E, D}} IN
    IF M # {} THEN <<(pos + MinOf(M)) % (x.cap + 1), idx \div B>>
    ELSE IF idx >= x.cap THEN <<-1, 0>>
    ELSE AvailFrom(x, (pos + idx + B) % (x.cap + 1), idx + B)
Avail(x, h, k) == AvailFrom(x, H1(h, k) % (x.cap + 1), 0)

Place(x, h, k, p) == SetMeta([x EXCEPT !.node[p] = k], p, H2(h, k))

\* Rehash into a new buffer. In an ordered table the links of the nodes move along, the order is kept as a sequence of keys.
DoRehash(x, h, c) ==
    LET Src == SelectSeq([i \in 1..x.cap |-> IF Occ(x.meta[i - 1]) THEN x.node[i - 1] ELSE 0], LAMBDA k : k # 0)
        y == FoldLeft(LAMBDA acc, k : Place(acc, h, k, Avail(acc, h, k)[1]), [Fresh0(c) EXCEPT !.size = x.size, !.ord = x.ord], Src) IN
    [y EXCEPT !.ne = MaxSize(c) - x.size]

\* Rehash in place: reclaims the tombstones. tg counts what happened to the elements.
Reset(x) ==
    LET m1 == [i \in DOMAIN x.meta |-> IF i < x.cap THEN (IF Occ(x.meta[i]) THEN D ELSE E) ELSE IF i = x.cap THEN S ELSE E]
        m2 == [i \in DOMAIN x.meta |-> IF i > x.cap THEN m1[i - x.cap - 1] ELSE m1[i]] IN
    [x EXCEPT !.meta = m2]
RECURSIVE InPlace(_, _, _, _)
InPlace(x, h, i, tg) ==
    IF i >= x.cap THEN <<[x EXCEPT !.ne = MaxSize(x.cap) - x.size], tg>>
    ELSE IF x.meta[i] # D THEN InPlace(x, h, i + 1, tg)
    ELSE LET k == x.node[i]  p == Avail(x, h, k)[1]  c1 == x.cap + 1  home == H1(h, k) % c1
             blk(q) == ((q - home) % c1) \div B IN
         IF p = -1 THEN <<[x EXCEPT !.ne = -1], tg>>
         ELSE IF blk(p) = blk(i) THEN InPlace(SetMeta(x, i, H2(h, k)), h, i + 1, [tg EXCEPT ![1] = @ + 1])
         ELSE IF x.meta[p] = E THEN
             InPlace(SetMeta(SetMeta([x EXCEPT !.node[p] = k, !.node[i] = 0], i, E), p, H2(h, k)), h, i + 1, [tg EXCEPT ![2] = @ + 1])
         ELSE InPlace(SetMeta([x EXCEPT !.node[p] = k, !.node[i] = x.node[p]], p, IF Mutant = "swaph2" THEN H2(h, x.node[p]) ELSE H2(h, k)), h,
                      IF Mutant = "swapnext" THEN i + 1 ELSE i, [tg EXCEPT ![3] = @ + 1])

NoTag == <<0, 0, 0>>
MakeAvailable(x, h) ==
    IF x.cap > B /\ x.size * 32 <= x.cap * 25 THEN InPlace(Reset(x), h, 0, NoTag) ELSE <<DoRehash(x, h, 2 * x.cap + 1), NoTag>>

\* <<table, tags, what>>
InsertK(x, h, k, pos) ==                    \* pos: position in the order, 1..Len + 1
    IF Find(x, h, k) # x.cap THEN <<x, NoTag, "present">>
    ELSE LET a0 == IF x.cap = 0 THEN <<-1, 0>> ELSE Avail(x, h, k)
             full == x.cap > 0 /\ x.ne = 0 /\ x.meta[a0[1]] # D
             r == IF x.cap = 0 THEN <<DoRehash(x, h, 1), NoTag>> ELSE IF full THEN MakeAvailable(x, h) ELSE <<x, NoTag>>
             y == r[1]
             a == Avail(y, h, k)  p == a[1]
             z == [Place(y, h, k, p) EXCEPT !.ne = IF y.meta[p] = E THEN @ - 1 ELSE @, !.size = @ + 1,
                                            !.ord = InsertAtPos(@, pos, k)] IN
         <<z, r[2], IF x.cap # y.cap THEN "grow" ELSE IF full THEN "inplace" ELSE
                    (IF x.meta[p] = D THEN "tomb" ELSE "new") \o ToString(a[2]) \o
                    (IF p < H1(h, k) % (x.cap + 1) THEN "w" ELSE "")>>
EraseK(x, h, k) ==
    LET p == Find(x, h, k) IN
    IF p = x.cap THEN x
    ELSE [SetMeta([x EXCEPT !.node[p] = 0], p, IF Mutant = "eraseempty" THEN E ELSE D) EXCEPT !.size = @ - 1,
              !.ord = SelectSeq(@, LAMBDA j : j # k)]
ClearT(x) == IF x.size = 0 THEN x ELSE Fresh0(x.cap)
ReserveT(x, h, n) == IF n > x.size + x.ne THEN DoRehash(x, h, Align(MinCap(n), 1)) ELSE x
BitOr(n, m) == LET RECURSIVE f(_, _, _)
                   f(a, b, w) == IF a = 0 /\ b = 0 THEN 0 ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN w ELSE 0) + f(a \div 2, b \div 2, 2 * w) IN f(n, m, 1)
RehashT(x, h, n) ==
    IF n = 0 /\ x.size = 0 THEN x
    ELSE LET c == Align(BitOr(n, MinCap(x.size)), 1) IN IF n = 0 \/ c > x.cap THEN DoRehash(x, h, c) ELSE x
\* The elements as they are visited by iteration.
Seq0(x) == IF Ordered THEN x.ord ELSE SelectSeq([i \in 1..x.cap |-> IF Occ(x.meta[i - 1]) THEN x.node[i - 1] ELSE 0], LAMBDA k : k # 0)
CopyT(x, h) ==
    IF x.size = 0 THEN Fresh0(0)
    ELSE FoldLeft(LAMBDA acc, k : [Place(acc, h, k, Avail(acc, h, k)[1]) EXCEPT !.ne = @ - 1, !.size = @ + 1, !.ord = Append(@, k)], Fresh0(x.cap), Seq0(x))

-----------------------------------------------------------------------------
Keys0(s) == [i \in 1..Len(s) |-> s[i][1]]
Init == hf \in 1..Len(Hashes) /\ t = Fresh0(0) /\ es = <<>> /\ op = <<"init", 0, 0, "", NoTag>> /\ mode = <<0, 0, 0>>

Ins(k, hint) ==                      \* hint: 0 none, else a position as in TppCore
    LET pos == InsertPos(F, es, hint)  r == InsertK(t, hf, k, IF Conflict(F, 0, es, El(k)) THEN 0 ELSE pos) IN
    /\ t' = r[1] /\ es' = Insert(F, 0, es, hint, El(k)) /\ op' = <<"i", k, hint, r[3], r[2]>>
Era(k) == t' = EraseK(t, hf, k) /\ es' = EraseKey(0, es, 1, k) /\ op' = <<"e", k, 0, "", NoTag>>
Clr == t' = ClearT(t) /\ es' = <<>> /\ op' = <<"c", 0, 0, "", NoTag>>
Rsv(n) == t' = ReserveT(t, hf, n) /\ es' = es /\ op' = <<"r", n, 0, "", NoTag>>
Reh(n) == t' = RehashT(t, hf, n) /\ es' = es /\ op' = <<"h", n, 0, "", NoTag>>
Cpy == t' = CopyT(t, hf) /\ es' = es /\ op' = <<"y", 0, 0, "", NoTag>>

\* Keys with the same hash are interchangeable: states that differ only by a permutation of them are not told apart,
\* and of those that are absent only the least one is inserted.
ClassOf(k) == MinOf({j \in Keys : Hashes[hf][j] = Hashes[hf][k]})
Least(k) == \A j \in Keys : (j < k /\ ClassOf(j) = ClassOf(k)) => t.node # <<>> /\ \E i \in DOMAIN t.node : t.node[i] = j
View == <<hf, t.cap, t.meta, t.ne, [i \in DOMAIN t.node |-> IF t.node[i] = 0 THEN 0 ELSE ClassOf(t.node[i])],
          [i \in 1..Len(t.ord) |-> IF Ordered THEN Find(t, hf, t.ord[i]) ELSE 0]>>

\* Exhaustive exploration.
Next ==
    /\ \/ \E k \in Keys : (Least(k) /\ Ins(k, 0)) \/ Era(k)
       \/ Ordered /\ \E k \in {j \in Keys : Least(j)} : \E h \in 1..(Len(es) + 1) : Ins(k, h)
       \/ Clr \/ Reh(0) \/ Cpy
       \/ \E n \in {B, MaxCap} : (n <= MaxCap) /\ (Rsv(MaxSize(n)) \/ Reh(n))
    /\ UNCHANGED <<hf, mode>>
Spec == Init /\ [][Next]_vars
Bound == t'.cap <= MaxCap

-----------------------------------------------------------------------------
(* Histories for the replay into the implementation: a random walk that fills, then keeps replacing elements (so that tombstones *)
(* pile up), then drains. mode = <<number of elements aimed at, steps left in this phase, kind of phase>>. In phases of kind 1  *)
(* keys whose insertion uses up an empty slot are preferred and nothing but insertions and erasures happens, which is what it    *)
(* takes to force a rehash in place.                                                                                             *)
In == {k \in Keys : Find(t, hf, k) # t.cap}
Pick(X) == RandomElement(X)
TakesEmpty(X) == {k \in X : LET a == Avail(t, hf, k)[1] IN a # -1 /\ t.meta[a] = E}
InPlaceMax == (t.cap * 25) \div 32
SimNext ==
    \E d \in {Pick(1..100)} : \E kind \in {IF mode[2] = 0 THEN Pick({0, 1, 1}) ELSE mode[3]} :
    \E tgt \in {IF mode[2] = 0 THEN (IF kind = 1 /\ t.cap > B THEN (IF NKeys < InPlaceMax THEN NKeys ELSE InPlaceMax) - Pick(0..4) ELSE Pick(0..NKeys)) ELSE mode[1]} :
    \E len \in {IF mode[2] = 0 THEN Pick({5, 10, 20, 40, 60}) ELSE mode[2] - 1} :
    \E n \in {Pick(0..NKeys)} : \E hint \in {IF Ordered /\ d % 4 = 0 THEN Pick(1..(Len(es) + 1)) ELSE 0} :
    LET In0 == In  Out == Keys \ In0
        grow == Out # {} /\ (In0 = {} \/ IF Len(es) < tgt THEN d <= 75 ELSE (d <= 40 /\ (kind = 0 \/ Len(es) = tgt))) IN
    /\ mode' = <<tgt, len, kind>> /\ hf' = hf
    /\ IF kind = 0 /\ d > 98 THEN Cpy
       ELSE IF kind = 0 /\ d > 96 THEN (IF n % 3 = 0 THEN Rsv(n) ELSE IF n % 3 = 1 THEN Reh(n) ELSE Reh(0))
       ELSE IF kind = 0 /\ d > 95 /\ n % 5 = 0 THEN Clr
       ELSE IF grow THEN \E P \in {IF kind = 1 /\ t.cap > 0 /\ d % 8 # 0 THEN TakesEmpty(Out) ELSE {}} :
                         \E k \in {Pick(IF P # {} THEN P ELSE Out)} : Ins(k, hint)
       ELSE \E k \in {Pick(In0)} : Era(k)
SimSpec == Init /\ [][SimNext]_vars
Log == PrintT(ToString(<<"T", TLCGet("level"), hf, op'>>))
\* The transitions of the exhaustive exploration, from which transition tours are built (tools/models.py).
Graph == Bound /\ PrintT(ToString(<<"G", hf, View, [i \in 1..t.cap |-> t.node[i - 1]], op', View', [i \in 1..t'.cap |-> t'.node[i - 1]]>>))

-----------------------------------------------------------------------------
(* What has to hold in every state *)
Slots == 0..(t.cap - 1)
OccS == {i \in Slots : Occ(t.meta[i])}
Mirrored == t.cap = 0 \/ (/\ t.meta[t.cap] = S
                          /\ \A i \in Slots : \A m \in {((i - (B - 1)) % (t.cap + 1)) + ((B - 1) % (t.cap + 1))} : t.meta[m] = t.meta[i]
                          /\ \A i \in (2 * t.cap + 1)..(t.cap + B - 1) : t.meta[i] = E)
Probing == t.cap > 0 => \A k \in Keys : FindFrom(t, hf, k, H1(hf, k) % (t.cap + 1), 0) # -1      \* every probe ends
Counted == /\ t.size = Cardinality(OccS) /\ t.size = Len(es)
           /\ t.ne = MaxSize(t.cap) - t.size - Cardinality({i \in Slots : t.meta[i] = D}) /\ t.ne >= 0
Lookup == \A k \in Keys : LET p == Find(t, hf, k) IN
    IF Conflict(F, 0, es, El(k)) THEN p \in Slots /\ t.node[p] = k ELSE p = t.cap
Fragments == \A i \in OccS : t.meta[i] = H2(hf, t.node[i]) /\ Cardinality({j \in OccS : t.node[j] = t.node[i]}) = 1
Refines == /\ Len(Seq0(t)) = Len(es)
           /\ IF Ordered THEN Seq0(t) = Keys0(es) ELSE Range(Seq0(t)) = Range(Keys0(es))
Inv == Mirrored /\ Probing /\ Counted /\ Lookup /\ Fragments /\ Refines /\ Unique(F, 0, es)
=============================================================================
