------------------------------ MODULE TppModel ------------------------------
(***************************************************************************)
(* The abstract containers as a state machine: small worlds of one or two  *)
(* containers and two node handles, in which every operation of the        *)
(* library is enabled with every argument from a small universe. The       *)
(* effect of the operations is Eff of TppTrace, i.e. what is explored here *)
(* is the very specification that recorded executions are checked against. *)
(*                                                                         *)
(* TLC checks the invariants and laws below in every reachable state and   *)
(* prints the transitions; transition tours over them are replayed into    *)
(* the real containers (tools/models.py) and the recorded executions are   *)
(* validated against TppTrace.                                             *)
(***************************************************************************)
EXTENDS TppTrace, FiniteSetsExt, Functions

CONSTANTS Ops,         \* the operations that are enabled
          Family,      \* <<nk, map, ord, stable, dense, pol>>
          KeySet, NVals, MaxLen, NSlots,
          Forms, Rforms,         \* forms of insertion of one element and of a range
          Conf                   \* the <<hash, equality, allocator>> configurations in use

VARIABLE lab           \* the last operation as a line of a script
mvars == <<l, F, con, hnd, thr, nbad, lab>>

Fam == [nk |-> Family[1], map |-> Family[2] = 1, ord |-> Family[3] = 1, stable |-> Family[4] = 1, dense |-> Family[5] = 1, u |-> 1 + Max({k % 1000 : k \in KeySet}), eqv |-> IF \E k \in KeySet : k >= 1000 THEN 1 ELSE 0, pol |-> Family[6]]
Js == 1..Family[1]
KeyTuples == IF Family[1] = 1 THEN {<<a>> : a \in KeySet} ELSE IF Family[1] = 2 THEN {<<a, b>> : a, b \in KeySet} ELSE {<<a, b, c>> : a, b, c \in KeySet}
Vals == IF Family[2] = 1 THEN 1..NVals ELSE {0}
Elems == {k \o <<v, 0>> : k \in KeyTuples, v \in Vals}
Elem1 == {k \o <<IF Family[2] = 1 THEN 1 ELSE 0, 0>> : k \in KeyTuples}
Slots == 0..(NSlots - 1)
Live == DOMAIN con
Ok == {c \in Live : con[c].q >= 0}     \* a container that was moved from is only destroyed, replaced or assigned to
Txt(e) == SubSeq(e, 1, Family[1]) \o <<IF Family[2] = 1 THEN e[Family[1] + 1] ELSE 0>>
Ev(o, c, d, x, e) == [op |-> o, c |-> c, d |-> d, x |-> x, e |-> e, o |-> <<>>]
Do(ev, text) ==
    LET r == Eff(ev) IN
    /\ con' = r.con /\ hnd' = r.hnd /\ lab' = text
    /\ UNCHANGED <<l, F, thr, nbad>>

ConfSet == {Conf[i] : i \in DOMAIN Conf}
Start(c) == CHOOSE q \in ConfSet : q = Conf[1]
Init0 ==
    /\ l = 1 /\ F = Fam /\ hnd = <<NoHandle, NoHandle>> /\ thr = FALSE /\ nbad = 0 /\ lab = <<"init">>
    /\ con = [c \in Slots |-> Mk(<<>>, Start(c)[1], Start(c)[2], Start(c)[3], Wild)]

\* A hint as in the scripts: none, end(), or the element with the given key.
HintTxt(c, h) == IF h = 0 THEN <<0, 0>> ELSE IF h = Len(con[c].es) + 1 THEN <<1, 0>> ELSE <<2, -(con[c].es[h][1]) - 1>>
Hints(c) == IF Family[3] = 1 THEN 0..(Len(con[c].es) + 1) ELSE {0, Len(con[c].es) + 1}
At(c, i) == -(con[c].es[i][1]) - 1

Ins == \E c \in Ok : \E f \in Forms : \E h \in (IF f \in {30, 31, 32, 42, 47} THEN {0} ELSE Hints(c)) :
         \E e \in (IF Assigns(f) THEN Elems ELSE Elem1) :
         Do(Ev("ins", c, 0, <<f, h>>, <<e>>), <<"ins", c, f>> \o HintTxt(c, h) \o Txt(e))
EraKey == \E c \in Ok : \E j \in Js : \E k \in KeySet : Do(Ev("er", c, 0, <<k, j - 1>>, <<>>), <<"er", c, k, j - 1, 0>>)
EraIt == \E c \in Ok : \E i \in 1..Len(con[c].es) : Do(Ev("eri", c, 0, <<i, 0>>, <<>>), <<"eri", c, At(c, i), (c + i) % 2>>)
EraRange == \E c \in Ok : \E i \in 1..(Len(con[c].es) + 1) : \E j \in i..(Len(con[c].es) + 1) :
              Family[3] = 1 /\ Do(Ev("err", c, 0, <<i, j>>, <<>>), <<"err", c, i - 1, j - 1>>)
EraIf == \E c \in Ok : \E m \in {2, 3} : \E r \in 0..(m - 1) : \E o \in {"erf", "erw"} \cap Ops : Do(Ev(o, c, 0, <<m, r>>, <<>>), <<o, c, m, r>>)
Clr == \E c \in Live : Do(Ev("clr", c, 0, <<>>, <<>>), <<"clr", c>>)
Mut == Family[2] = 1 /\ \E c \in Ok : \E v \in Vals :
         \/ "mut" \in Ops /\ \E i \in 1..Len(con[c].es) : Do(Ev("mut", c, 0, <<i, v>>, <<>>), <<"mut", c, At(c, i), v>>)
         \/ "mua" \in Ops /\ \E k \in KeySet : Do(Ev("mua", c, 0, <<k, v>>, <<>>), <<"mua", c, k, v>>)
Ali == \E c \in Ok : \E f \in (IF Family[1] > 1 \/ Family[2] = 0 THEN {0, 1} ELSE 0..6) : \E i \in 1..Len(con[c].es) : \E k \in KeySet :
         Do(Ev("ali", c, 0, <<f, i, k>>, <<>>), <<"ali", c, f, At(c, i), k>>)
Get == Family[2] = 1 /\ \E c \in Ok : \E j \in Js : \E k \in KeySet : Do(Ev("at", c, 0, <<k, j - 1>>, <<>>), <<"at", c, k, j - 1, 0>>)
Caps == \E c \in Ok : \E n \in {0, 9} : \E o \in {"rsv", "rh"} \cap Ops : Do(Ev(o, c, 0, <<n>>, <<>>), <<o, c, n>>)

\* Two containers: construction, copies, moves, swaps, comparison.
Fresh0 == \E c \in Slots : \E q \in ConfSet : Do(Ev("new", c, 0, q, <<>>), <<"new", c>> \o q)
Lists == UNION {[1..n -> Elem1] : n \in 0..2}
Flat(xs) == <<Len(xs)>> \o FlattenSeq([i \in DOMAIN xs |-> Txt(xs[i])])
Rng == \E c \in Slots : \E q \in ConfSet : \E xs \in Lists : \E f \in Rforms \ {5} :
         Do(Ev("rng", c, 0, <<f, 0, IF f >= 20 THEN 0 ELSE q[1], IF f >= 10 THEN 0 ELSE q[2], q[3]>>, xs), <<"rng", c, f, 0>> \o q \o Flat(xs))
InsR == \E c \in Ok : \E xs \in Lists : \E f \in Rforms : f < 10 /\ Do(Ev("insr", c, 0, <<f>>, xs), <<"insr", c, f>> \o Flat(xs))
Asg == \E c \in Ok : \E xs \in Lists : \E f \in (IF Family[2] = 1 THEN {0} ELSE {0, 1}) : Do(Ev("asg", c, 0, <<f>>, xs), <<"asg", c, f>> \o Flat(xs))
Cap == \E c \in Slots : \E q \in ConfSet : \E n \in {0, 5} : Do(Ev("cap", c, 0, <<n>> \o q, <<>>), <<"cap", c, n>> \o q \o <<0>>)
Two(o) == \E c \in Slots : \E d \in Ok : (c \in (IF o = "sw" THEN Ok ELSE Live) \/ o \notin {"ca", "ma", "sw"}) /\ (c # d \/ o \in {"ca", "ma", "sw"}) /\ (o = "sw" => Bit(F.pol, 4) \/ (con[c].a = con[d].a /\ con[c].a # Wild)) /\
            Do(Ev(o, c, d, <<0>>, <<>>), IF o = "sw" THEN <<o, c, d, 0>> ELSE <<o, c, d>>)
TwoA(o) == \E c \in Slots : \E d \in Ok : \E q \in ConfSet : c # d /\ Do(Ev(o, c, d, <<q[3]>>, <<>>), <<o, c, d, q[3]>>)
Eqq == \E c, d \in Ok : Do(Ev("eqq", c, d, <<>>, <<>>), <<"eqq", c, d>>)
Dst == \E c \in Live : Cardinality(Live) > 1 /\ Do(Ev("del", c, 0, <<>>, <<>>), <<"del", c>>)

\* Node handles.
Ext == \E c \in Ok : \E h \in {0, 1} : hnd[h + 1].a < 0 /\
         \/ "ext" \in Ops /\ \E k \in KeySet : Do(Ev("ext", c, h, <<k>>, <<>>), <<"ext", c, k, h, 0>>)
         \/ "exi" \in Ops /\ \E i \in 1..Len(con[c].es) : Do(Ev("exi", c, h, <<i>>, <<>>), <<"exi", c, At(c, i), h>>)
Nin == \E c \in Ok : \E h \in {0, 1} : \E p \in Hints(c) : \E o \in ((IF Family[2] = 1 THEN {"nin", "nia"} ELSE {"nin"}) \cap Ops) :
         Do(Ev(o, c, h, <<p>>, <<>>), <<o, c, h>> \o HintTxt(c, p))
Hnd == \/ "ndr" \in Ops /\ \E h \in {0, 1} : hnd[h + 1].a >= 0 /\ Do(Ev("ndr", 0, h, <<>>, <<>>), <<"ndr", h>>)
       \/ "nmv" \in Ops /\ \E h \in {0, 1} : Do(Ev("nmv", 0, 0, <<h, 1 - h>>, <<>>), <<"nmv", h, 1 - h>>)
       \/ "nsw" \in Ops /\ Do(Ev("nsw", 0, 0, <<>>, <<>>), <<"nsw", 0>>)
Mrg == \E c, d \in Ok : c # d /\ con[c].a = con[d].a /\ con[c].a # Wild /\ Do(Ev("mrg", c, d, <<0>>, <<>>), <<"mrg", c, d, 0>>)

On(o) == o \in Ops
Next0 ==
    \/ (On("ins") /\ Ins) \/ (On("er") /\ EraKey) \/ (On("eri") /\ EraIt) \/ (On("clr") /\ Clr)
    \/ (On("err") /\ EraRange) \/ EraIf \/ Mut \/ (On("ali") /\ Ali) \/ Caps \/ (On("at") /\ Get)
    \/ (On("new") /\ Fresh0) \/ (On("cap") /\ Cap) \/ (On("rng") /\ Rng) \/ (On("insr") /\ InsR) \/ (On("asg") /\ Asg)
    \/ \E o \in {"cc", "mc", "ca", "ma", "sw"} \cap Ops : Two(o)
    \/ \E o \in {"cca", "mca"} \cap Ops : TwoA(o)
    \/ (On("eqq") /\ Eqq) \/ (On("del") /\ Dst)
    \/ Ext \/ Nin \/ Hnd \/ (On("mrg") /\ Mrg)
ModelSpec == Init0 /\ [][Next0]_mvars
Canon(es) == IF Family[3] = 1 THEN es ELSE SetToSeq(Range(es))          \* the order is only specified for ordered containers
ConId(k) == <<Canon(k.es), k.h, k.q, k.a, k.m>>
Total(cc, hh) == FoldFunction(LAMBDA c, n : Len(c.es) + n, 0, cc) + Cardinality({h \in 1..2 : hh[h].a >= 0})
Small == Total(con', hnd') <= MaxLen
Id(cc, hh) == <<[i \in 1..2 |-> IF (i - 1) \in DOMAIN cc THEN ConId(cc[i - 1]) ELSE <<>>], [i \in 1..2 |-> <<hh[i].a, hh[i].e>>]>>
ModelView == Id(con, hnd)
MGraph == Small /\ PrintT(ToString(<<"G", lab[1] = "init", Id(con, hnd), lab', Id(con', hnd')>>))

-----------------------------------------------------------------------------
(* What has to hold in every state, and laws the operations obey there. *)
KeysUnique == \A c \in Live : con[c].q >= 0 => Unique(F, con[c].q, con[c].es)
Present(q, es, e) == Conflict(F, q, es, e)
InsertLaws == \A c \in Live : \A e \in Elem1 : LET es == con[c].es  q == con[c].q IN q >= 0 =>
    /\ \A h \in Hints(c) : LET n == Insert(F, q, es, h, e) IN
        /\ (Present(q, es, e) => n = es)
        /\ (~Present(q, es, e) => Len(n) = Len(es) + 1 /\ \E i \in 1..Len(n) : Strip(F, n[i]) = Strip(F, e) /\ RemoveAt1(n, i) = es
                                /\ (Family[3] = 1 => i = (IF h = 0 THEN Len(n) ELSE IF h = Len(es) + 1 THEN 1 ELSE h + 1)))
        /\ Unique(F, q, n)
    /\ Insert(F, q, Insert(F, q, es, 0, e), 0, e) = Insert(F, q, es, 0, e)
    /\ (~Present(q, es, e) => EraseKey(q, Insert(F, q, es, 0, e), 1, e[1]) = es)
EraseLaws == \A c \in Live : \A j \in Js : \A k \in KeySet : LET es == con[c].es  q == con[c].q  n == EraseKey(q, es, j, k) IN q >= 0 =>
    /\ FindIdx(q, n, j, k) = 0
    /\ \A m \in KeySet : ~KeyEq(q, m, k) => (FindIdx(q, n, j, m) = 0) = (FindIdx(q, es, j, m) = 0 \/ FindIdx(q, es, j, m) = FindIdx(q, es, j, k))
MergeLaws == \A c, d \in Live : (c # d /\ con[c].q >= 0 /\ con[d].q >= 0) =>
    LET a == con[c].es  b == con[d].es  m == MergeDst(F, con[c].q, a, b)  r == MergeSrc(F, con[c].q, a, b) IN
    /\ Len(m) + Len(r) = Len(a) + Len(b) /\ SubSeq(m, 1, Len(a)) = a
    /\ \A i \in 1..Len(r) : Conflict(F, con[c].q, m, r[i])
    /\ Range(m) \cup Range(r) = Range(a) \cup Range(b)
HandleLaws == \A h \in 1..2 : hnd[h].a < 0 \/ hnd[h].a \in {q[3] : q \in ConfSet}
ModelInv == KeysUnique /\ InsertLaws /\ EraseLaws /\ MergeLaws /\ HandleLaws
=============================================================================
