------------------------------ MODULE TppTrace ------------------------------
(***************************************************************************)
(* Trace specification: the executions recorded from the real containers   *)
(* (one JSON object per operation, see harness/driver.cpp) are checked     *)
(* against TppCore. The recorded event carries the operation, its          *)
(* arguments, its results and the complete observable state afterwards.    *)
(* For every event the specification computes what may follow from its own *)
(* state, and Fails(ev) is the set of aspects in which the observation is  *)
(* not one of the allowed outcomes. Events that fail in an aspect that is  *)
(* part of property Prop are printed and counted. After each event the     *)
(* specification continues from the observed state, so that one defect     *)
(* does not mask a later one.                                              *)
(***************************************************************************)
EXTENDS TppCore, TLC, Json

CONSTANTS TraceFile, Prop

Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,        \* next line of the trace
          F,        \* family of containers of the current script (and U, eqv)
          con,      \* slot -> container
          hnd,      \* node handles: <<[a |-> allocator id or -1 when empty, e |-> element], ..>>
          thr,      \* an exception was thrown earlier in this script
          nbad      \* number of rejected events
vars == <<l, F, con, hnd, thr, nbad>>

-----------------------------------------------------------------------------
(* The observation carried by an event *)
ObsMap(ev) == LET D == {ev.o[i].s : i \in 1..Len(ev.o)} IN
    [s \in D |-> LET o == ev.o[CHOOSE i \in 1..Len(ev.o) : ev.o[i].s = s] IN o]
AsCon(o) == [es |-> o.es, h |-> o.q[1], q |-> o.q[2], a |-> o.q[3], m |-> o.z[6], x |-> ~(o.z[4] = 1 /\ o.z[5] = 1)]

Upd(f, s, v) == [t \in (DOMAIN f) \cup {s} |-> IF t = s THEN v ELSE f[t]]
Del(f, s) == [t \in (DOMAIN f) \ {s} |-> f[t]]
ZF(v) == IF F.pol < 0 THEN 0 ELSE v

-----------------------------------------------------------------------------
(* Comparison of an expected with an observed sequence of elements *)
MatchE(e, g) == IF Pof(F, e) = Wild THEN Strip(F, e) = Strip(F, g) ELSE e = g
SameSet(ex, ob) == Len(ex) = Len(ob) /\ StripAll(F, ex) = StripAll(F, ob)
SameAddr(ex, ob) == LET G == Range(ob) IN \A i \in 1..Len(ex) : Pof(F, ex[i]) # Wild => ex[i] \in G
SameSeq(ex, ob) == Len(ex) = Len(ob) /\ \A i \in 1..Len(ex) : Strip(F, ex[i]) = Strip(F, ob[i])

-----------------------------------------------------------------------------
(* Aspects of a single observed container that hold in every state *)
KeyIdx(k) == LET b == k % 1000 IN
    IF b < F.u /\ (k \div 1000) <= F.eqv THEN b + 1 + F.u * (k \div 1000) ELSE 0
LookupOK(o, j) ==
    LET f == o.f[j]  md == o.q[2]  n == Len(o.es)
        In(k) == IF md = 0 THEN (IF KeyIdx(k) > 0 THEN {KeyIdx(k)} ELSE {})
                 ELSE (IF k % 1000 < F.u THEN {(k % 1000) + 1 + F.u * g : g \in 0..F.eqv} ELSE {})
        Exp == UNION {In(o.es[i][j]) : i \in 1..n}
    IN /\ \A i \in 1..n : \A x \in In(o.es[i][j]) : f[x] = i
       /\ \A x \in DOMAIN f : f[x] # 0 => x \in Exp
LookupFail(o) == \E j \in 1..F.nk : ~LookupOK(o, j)
HetFail(o) == \E j \in 1..F.nk : \E x \in DOMAIN o.f[j] : o.f[j][x] = -6
RvFail(o) == LET n == Len(o.es) IN
    IF F.ord \/ F.dense THEN o.rv # [i \in 1..n |-> n + 1 - i] ELSE FALSE
StateFails(o) ==
    (IF LookupFail(o) THEN {"lookup"} ELSE {}) \cup (IF HetFail(o) THEN {"het"} ELSE {})
    \cup (IF RvFail(o) THEN {"rv"} ELSE {}) \cup (IF o.z[3] # 1 THEN {IF o.z[3] = -1 THEN "ends" ELSE "iter"} ELSE {})
    \cup (IF o.z[1] # Len(o.es) \/ (o.z[2] = 1) # (o.z[1] = 0) THEN {"size"} ELSE {})
    \cup (IF ~Unique(F, o.q[2], o.es) THEN {"dup"} ELSE {})

(* Aspects of the whole world that hold in every state *)
SumLen(O) == FoldLeft(LAMBDA acc, s : IF s \in DOMAIN O THEN acc + Len(O[s].es) ELSE acc, 0, <<0, 1, 2>>)
Handles(ev) == {h \in 1..Len(ev.n) : ev.n[h].a >= 0}
LiveFail(ev, O) ==
    LET n == SumLen(O) + Cardinality(Handles(ev)) IN
    ev.g[1] # n * F.nk \/ ev.g[2] # (IF F.map THEN n ELSE 0)
BlocksFail(ev, O) ==
    \E id \in 0..9 : ev.b[id + 1] > 0 /\ ~(\E s \in DOMAIN O : O[s].q[3] = id) /\ ~(\E h \in Handles(ev) : ev.n[h].a = id)
WorldFails(ev, O) ==
    (IF LiveFail(ev, O) THEN {"live"} ELSE {}) \cup (IF BlocksFail(ev, O) THEN {"blocks"} ELSE {})
    \cup (IF ev.g[3] # 0 THEN {CASE ev.ec = 1 -> "args" [] ev.ec = 2 -> "node" [] ev.ec = 3 -> "alloc" [] OTHER -> "errs"} ELSE {})

-----------------------------------------------------------------------------
(* What a successful operation does. Eff(ev) is                             *)
(*   con  the containers afterwards (functors Wild = -1: not determined)      *)
(*   hnd  the handles afterwards                                             *)
(*   ch   the slots the operation may change                                 *)
(* and RetOK(ev, O) says whether the reported results are right.             *)
C(ev) == con[ev.c]
Mk(es, h, q, a, m) == [es |-> es, h |-> h, q |-> q, a |-> a, m |-> m, x |-> FALSE]
Es(ev, es) == [con |-> [con EXCEPT ![ev.c].es = es], hnd |-> hnd, ch |-> {ev.c}]
Same(ev) == [con |-> con, hnd |-> hnd, ch |-> {}]
NoHandle == [a |-> -1, e |-> <<0, 0, 0>>]
Component(j) == IF F.nk = 1 \/ j = 0 THEN 1 ELSE IF F.nk = 2 \/ j = 1 THEN 2 ELSE F.nk
Assigns(var) == var \in {20, 21, 22, 23, 24, 25, 30, 31, 32, 41, 42, 44, 45, 46, 47}
BulkE(k) == [i \in 1..(F.nk + 2) |-> IF i <= F.nk THEN k ELSE IF i = F.nk + 1 /\ F.map THEN k + 1 ELSE 0]
BulkKeys(x) == [i \in 1..(IF x[2] > x[1] THEN ((x[2] - x[1] + x[3] - 1) \div x[3]) ELSE 0) |-> x[1] + (i - 1) * x[3]]
BulkRes(c, x) ==
    IF x[4] = 0 THEN InsertMany(F, c.q, c.es, [i \in DOMAIN BulkKeys(x) |-> BulkE(BulkKeys(x)[i])])
    ELSE FoldLeft(LAMBDA acc, k : EraseKey(c.q, acc, F.nk, k), c.es, BulkKeys(x))
SeqE(k) == IF F.nk = 1 THEN <<k % 100000, IF F.map THEN ((k % 100000) % 90) + 1 ELSE 0, 0>>
           ELSE [i \in 1..(F.nk + 2) |-> IF i <= F.nk THEN (k \div (CASE i = 1 -> 1 [] i = 2 -> 100 [] OTHER -> 10000)) % 100
                                         ELSE IF i = F.nk + 1 /\ F.map THEN ((k % 100) % 90) + 1 ELSE 0]
SeqStep(q, es, v) == IF v = 0 THEN <<>>
                     ELSE IF v < 0 THEN (IF F.nk = 1 THEN EraseKey(q, es, 1, -v - 1) ELSE EraseKey(q, es, Component((-v - 1) \div 100), (-v - 1) % 100))
                     ELSE Insert(F, q, es, IF F.nk = 1 /\ v > 100000 THEN Len(es) + 1 ELSE 0, SeqE(v - 1))
SeqRes(c, x) == FoldLeft(LAMBDA acc, v : SeqStep(c.q, acc, v), c.es, x)
SeqSizes(c, x) == FoldLeft(LAMBDA acc, v : LET n == SeqStep(c.q, acc[1], v) IN <<n, Append(acc[2], Len(n))>>, <<c.es, <<>>>>, x)[2]
AliE(ev) == LET c == C(ev)  x == ev.x  s == c.es[x[2]] IN
    IF F.nk = 1 THEN
        IF F.map THEN <<IF x[1] <= 3 THEN x[3] ELSE s[1], Vof(F, s), 0>> ELSE s
    ELSE IF F.map THEN [i \in 1..(F.nk + 2) |-> IF i <= F.nk THEN x[3] ELSE IF i = F.nk + 1 THEN Vof(F, s) ELSE 0]
    ELSE [i \in 1..(F.nk + 2) |-> IF i < F.nk THEN x[3] ELSE IF i = F.nk THEN s[1] ELSE 0]
AliAssigns(ev) == F.nk = 1 /\ F.map /\ ev.x[1] \in {2, 3, 4, 5}

TakesKey(ev, k) == \E i \in 1..Len(ev.o) : ev.o[i].s = ev.c /\ \E j \in 1..Len(ev.o[i].es) : ev.o[i].es[j][1] = k

Eff(ev) ==
    LET x == ev.x  c == IF ev.c \in DOMAIN con THEN C(ev) ELSE Mk(<<>>, 0, 0, 0, Wild)
        s == IF ev.d \in DOMAIN con THEN con[ev.d] ELSE c
        PutC(k) == [con |-> Upd(con, ev.c, k), hnd |-> hnd, ch |-> {ev.c}]
        \* destination becomes k, source is left empty with unspecified configuration
        Moved(k) == IF ev.c = ev.d THEN Same(ev) ELSE
            [con |-> Upd(Upd(con, ev.d, Mk(<<>>, Wild, Wild, Wild, Wild)), ev.c, k), hnd |-> hnd, ch |-> {ev.c, ev.d}]
        Keep(src, a) == IF src.a = a THEN src.es ELSE Fresh(F, src.es)
    IN
    CASE ev.op = "new" -> PutC(Mk(<<>>, ZF(x[1]), ZF(x[2]), ZF(x[3]), Wild))
      [] ev.op = "cap" -> PutC(Mk(<<>>, ZF(x[2]), ZF(x[3]), ZF(x[4]), Wild))
      [] ev.op = "rng" -> PutC(Mk(InsertMany(F, ZF(x[4]), <<>>, ev.e), ZF(x[3]), ZF(x[4]), ZF(x[5]), Wild))
      [] ev.op = "cc"  -> PutC(Mk(Fresh(F, s.es), s.h, s.q, CopyAlloc(F.pol, s.a), Wild))
      [] ev.op = "cca" -> PutC(Mk(Fresh(F, s.es), s.h, s.q, ZF(x[1]), Wild))
      [] ev.op = "mc"  -> Moved(Mk(s.es, s.h, s.q, s.a, s.m))
      [] ev.op = "mca" -> Moved(Mk(Keep(s, ZF(x[1])), s.h, s.q, ZF(x[1]), s.m))
      [] ev.op = "ca"  -> IF ev.c = ev.d THEN Same(ev)
                          ELSE PutC(Mk(Fresh(F, s.es), s.h, s.q, AssignAlloc(F.pol, 1, c.a, s.a), Wild))
      [] ev.op = "ma"  -> Moved(Mk(IF Bit(F.pol, 2) THEN s.es ELSE Keep(s, c.a), s.h, s.q, AssignAlloc(F.pol, 2, c.a, s.a), s.m))
      [] ev.op = "asg" -> Es(ev, InsertMany(F, c.q, <<>>, ev.e))
      [] ev.op = "sw"  -> IF ev.c = ev.d THEN Same(ev) ELSE
            [con |-> [con EXCEPT ![ev.c] = s, ![ev.d] = c], hnd |-> hnd, ch |-> {ev.c, ev.d}]
      [] ev.op = "del" -> [con |-> Del(con, ev.c), hnd |-> hnd, ch |-> {ev.c}]
      [] ev.op = "clr" -> Es(ev, <<>>)
      [] ev.op = "ins" -> Es(ev, IF Assigns(x[1]) THEN Assign(F, c.q, c.es, x[2], ev.e[1]) ELSE Insert(F, c.q, c.es, x[2], ev.e[1]))
      [] ev.op \in {"insr", "fil"} -> Es(ev, InsertMany(F, c.q, c.es, ev.e))
      [] ev.op = "bulk" -> Es(ev, BulkRes(c, x))
      [] ev.op = "seq" -> Es(ev, SeqRes(c, x))
      [] ev.op = "er"  -> Es(ev, EraseKey(c.q, c.es, Component(x[2]), x[1]))
      [] ev.op = "eri" -> Es(ev, RemoveAt1(c.es, x[1]))
      [] ev.op = "err" -> Es(ev, RemoveRange(c.es, x[1], x[2]))
      [] ev.op \in {"erf", "erw"} -> Es(ev, EraseIf(c.es, x[1], x[2]))
      [] ev.op = "mut" -> Es(ev, [c.es EXCEPT ![x[1]] = WithV(F, @, x[2])])
      [] ev.op = "mua" -> LET i == FindIdx(c.q, c.es, 1, x[1]) IN
                          IF i = 0 THEN Same(ev) ELSE Es(ev, [c.es EXCEPT ![i] = WithV(F, @, x[2])])
      [] ev.op \in {"rsv", "rh"} -> Es(ev, c.es)
      [] ev.op = "mlf" -> [con |-> [con EXCEPT ![ev.c].m = x[1]], hnd |-> hnd, ch |-> {ev.c}]
      [] ev.op \in {"at", "eqq", "bkt"} -> Same(ev)
      [] ev.op = "ali" -> Es(ev, IF AliAssigns(ev) THEN Assign(F, c.q, c.es, 0, AliE(ev)) ELSE Insert(F, c.q, c.es, 0, AliE(ev)))
      [] ev.op \in {"ext", "exi"} ->
            LET i == IF ev.op = "ext" THEN FindIdx(c.q, c.es, 1, x[1]) ELSE x[1]  h == ev.d + 1 IN
            IF i = 0 THEN [con |-> con, hnd |-> [hnd EXCEPT ![h] = NoHandle], ch |-> {}]
            ELSE [con |-> [con EXCEPT ![ev.c].es = RemoveAt1(@, i)], hnd |-> [hnd EXCEPT ![h] = [a |-> c.a, e |-> c.es[i]]], ch |-> {ev.c}]
      [] ev.op \in {"nin", "nia"} ->
            LET h == ev.d + 1  e == hnd[h].e  i == FindIdx(c.q, c.es, 1, e[1]) IN
            IF hnd[h].a < 0 THEN Same(ev)
            ELSE IF i = 0 THEN \* memory can not be handed over to a different allocator
                 [con |-> [con EXCEPT ![ev.c].es = InsertNode(F, c.q, @, x[1], IF hnd[h].a = c.a THEN e ELSE WithP(F, e, Wild))], hnd |-> [hnd EXCEPT ![h] = NoHandle], ch |-> {ev.c}]
            ELSE IF ev.op = "nin" THEN Same(ev)
            ELSE \* the value is taken over; which of the two nodes (and of the two equal keys) stays is not determined
                 [con |-> [con EXCEPT ![ev.c].es[i] = WithP(F, <<IF TakesKey(ev, e[1]) THEN e[1] ELSE @[1], Vof(F, e), 0>>, Wild)], hnd |-> [hnd EXCEPT ![h] = NoHandle], ch |-> {ev.c}]
      [] ev.op = "ndr" -> [con |-> con, hnd |-> [hnd EXCEPT ![ev.d + 1] = NoHandle], ch |-> {}]
      [] ev.op = "nmv" -> [con |-> con, hnd |-> [hnd EXCEPT ![x[2] + 1] = hnd[x[1] + 1], ![x[1] + 1] = NoHandle], ch |-> {}]
      [] ev.op = "nsw" -> [con |-> con, hnd |-> <<hnd[2], hnd[1]>>, ch |-> {}]
      [] ev.op = "mrg" -> [con |-> [con EXCEPT ![ev.c].es = MergeDst(F, c.q, c.es, s.es), ![ev.d].es = MergeSrc(F, c.q, c.es, s.es)],
                           hnd |-> hnd, ch |-> {ev.c, ev.d}]
      [] OTHER -> Assert(FALSE, <<"unknown operation", ev.op>>)

\* Returned iterators are recorded as 1-based positions in the container afterwards, 0 for end().
Designates(es, idx, mode, e) == idx \in 1..Len(es) /\ \E j \in 1..F.nk : KeyEq(mode, es[idx][j], e[j])
ReadOnly(ev) == ev.op \in {"at", "eqq", "bkt", "ndr", "nmv", "nsw"}
\* successor of an erased element: exactly the elements that came after it remain to be visited
SuccOK(old, from, es, idx) == \* from: 1-based position in old of the first element not yet visited
    IF idx < 0 THEN FALSE ELSE
    LET rest == IF idx = 0 THEN <<>> ELSE SubSeq(es, idx, Len(es))
        want == SubSeq(old, from, Len(old)) IN
    Len(rest) = Len(want) /\ Range(rest) = Range(want)
RetOK(ev, O) ==
    LET x == ev.x  r == ev.r  c == IF ev.c \in DOMAIN con THEN C(ev) ELSE Mk(<<>>, 0, 0, 0, Wild)
        es == IF ev.c \in DOMAIN O THEN O[ev.c].es ELSE <<>> IN
    CASE ev.op = "ins" ->
            LET e == ev.e[1]  K == ConfIdx(F, c.q, c.es, e) IN
            /\ r[1] = (IF K = {} THEN 1 ELSE 0)
            /\ Designates(es, r[2], c.q, e)
            /\ K = {} /\ F.ord => r[2] = InsertPos(F, c.es, x[2])
            /\ x[1] \in {30, 31, 32, 42, 47} => r[6] = (IF K = {} THEN 0 ELSE Vof(F, c.es[CHOOSE i \in K : TRUE]))
      [] ev.op = "fil" -> r = <<1, 1, 1>>
      [] ev.op = "seq" -> r = SeqSizes(c, x)
      [] ev.op = "bulk" -> r[1] = (LET d == Len(BulkRes(c, x)) - Len(c.es) IN IF d < 0 THEN -d ELSE d)
      [] ev.op = "er" ->
            LET i == FindIdx(c.q, c.es, Component(x[2]), x[1]) IN IF i = 0 THEN r[1] = 0 ELSE SuccOK(c.es, i + 1, es, r[1])
      [] ev.op = "eri" -> SuccOK(c.es, x[1] + 1, es, r[1])
      [] ev.op = "err" -> SuccOK(c.es, x[2], es, r[1])
      [] ev.op = "erf" -> r[1] = Len(c.es) - Len(EraseIf(c.es, x[1], x[2]))
      [] ev.op = "erw" -> r[1] = Len(c.es) - Len(EraseIf(c.es, x[1], x[2])) /\ r[2] = Len(c.es)
      [] ev.op = "at" -> LET i == FindIdx(c.q, c.es, Component(x[2]), x[1]) IN
                         IF i = 0 THEN r[1] = 0 ELSE r[1] = 1 /\ r[2] = Vof(F, c.es[i])
      [] ev.op = "mua" -> r[1] = (IF FindIdx(c.q, c.es, 1, x[1]) = 0 THEN 0 ELSE 1)
      [] ev.op \in {"rsv", "rh"} -> r[1] = 1
      [] ev.op = "eqq" -> LET b == IF SameContents(F, c.es, con[ev.d].es) THEN 1 ELSE 0 IN r = <<b, 1 - b, b, 1 - b>>
      [] ev.op = "bkt" -> r = <<Len(c.es), 0>>
      [] ev.op = "ext" -> r[1] = (IF FindIdx(c.q, c.es, 1, x[1]) = 0 THEN 0 ELSE 1)
      [] ev.op = "exi" -> r[1] = 1
      [] ev.op \in {"nin", "nia"} ->
            LET h == ev.d + 1  e == hnd[h].e IN
            IF hnd[h].a < 0 THEN r[1] = 0
            ELSE /\ r[1] = (IF FindIdx(c.q, c.es, 1, e[1]) = 0 THEN 1 ELSE 0)
                 /\ Designates(es, r[2], c.q, e)
                 /\ r[1] = 1 /\ F.ord => r[2] = InsertPos(F, c.es, x[1])
      [] ev.op = "ali" ->
            LET e == AliE(ev) IN r[1] = (IF Conflict(F, c.q, c.es, e) THEN 0 ELSE 1) /\ Designates(es, r[2], c.q, e)
      [] OTHER -> TRUE

\* Arguments: lvalues are never modified; try_emplace on a present key leaves rvalues alone, too.
ArgsOK(ev) == ev.op # "ins" \/
    LET var == ev.x[1]  K == ConfIdx(F, C(ev).q, C(ev).es, ev.e[1]) IN
    /\ ev.r[3] = 1 => var \in {3, 11, 21, 24, 32} /\ (var = 11 => K = {})
    /\ ev.r[4] = 1 => var \in {3, 11, 21, 24, 44} /\ (var = 11 => K = {})
\* Elements are never copied by these operations. Exception: elements of a stable map (which have a constant key) can not be
\* transferred between unequal allocators without copying the key.
MustNotCopy(ev) ==
    /\ ev.op \in {"mc", "mca", "ma", "sw", "rsv", "rh", "mrg", "ext", "exi", "er", "eri", "err", "erf", "erw", "nin", "mlf"}
    /\ F.stable /\ F.map =>
       /\ ev.op = "mca" => ev.d \in DOMAIN con /\ con[ev.d].a = ev.x[1]
       /\ ev.op = "ma" => Bit(F.pol, 2) \/ (ev.d \in DOMAIN con /\ ev.c \in DOMAIN con /\ con[ev.d].a = con[ev.c].a)
       /\ ev.op = "nin" => ev.c \in DOMAIN con /\ hnd[ev.d + 1].a \in {-1, con[ev.c].a}

\* The handles carry the address of their element.
MatchH(x, g) == x.a = g.a /\ (x.a < 0 \/ MatchE(x.e, g.e))
HandlesOK(ex, ob) == Len(ob) = 0 \/ \A h \in 1..2 : MatchH(ex[h], ob[h])

OkFails(ev, O) ==
    LET X == Eff(ev)  D == DOMAIN X.con IN
    IF D # DOMAIN O THEN {"content"} ELSE
    UNION {
        LET k == X.con[s]  o == O[s]  ob == o.es IN
        IF s \notin X.ch THEN
            (IF k.es = ob THEN {} ELSE IF s = ev.c \/ s = ev.d THEN {"content"} ELSE {"other"})
            \cup (IF <<k.h, k.q>> = <<o.q[1], o.q[2]>> THEN {} ELSE {"func"}) \cup (IF k.a = o.q[3] THEN {} ELSE {"alloc"})
            \cup (IF k.m = o.z[6] THEN {} ELSE {"mlf"})
        ELSE
            (IF SameSet(k.es, ob) THEN
                 (IF F.ord /\ ~SameSeq(k.es, ob) THEN {"order"} ELSE {}) \cup (IF F.stable /\ ~SameAddr(k.es, ob) THEN {"addr"} ELSE {})
             ELSE {IF s = ev.d /\ s # ev.c THEN "srccontent" ELSE "content"})
            \cup (IF k.h \in {Wild, o.q[1]} /\ k.q \in {Wild, o.q[2]} THEN {} ELSE {"func"})
            \cup (IF k.a \in {Wild, o.q[3]} THEN {} ELSE {"alloc"}) \cup (IF k.m \in {Wild, o.z[6]} THEN {} ELSE {"mlf"})
        : s \in D}
    \cup (IF HandlesOK(X.hnd, ev.n) THEN {} ELSE {"node"})
    \cup (IF RetOK(ev, O) THEN {} ELSE {"ret"})
    \cup (IF ArgsOK(ev) THEN {} ELSE {"args"})
    \cup (IF MustNotCopy(ev) /\ ev.g[5] # 0 THEN {"copies"} ELSE {})

-----------------------------------------------------------------------------
(* What a failed operation (an exception reached the caller) may leave. *)
EqC(k, ob) == SameSet(k, ob) /\ (F.ord => SameSeq(k, ob)) /\ (F.stable => SameAddr(k, ob))
Untouched(s, O) == s \in DOMAIN O /\ EqC(con[s].es, O[s].es)
UntouchedIf(s, O) == s \in DOMAIN con => Untouched(s, O)
SubSet(a, b) == StripAll(F, a) \subseteq StripAll(F, b)
PrefixRun(base, xs, mode, ob) == \E n \in 0..Len(xs) : EqC(InsertMany(F, mode, base, SubSeq(xs, 1, n)), ob)
ThrownOK(ev, O) ==
    LET x == ev.x  c == IF ev.c \in DOMAIN con THEN C(ev) ELSE Mk(<<>>, 0, 0, 0, Wild)
        s == IF ev.d \in DOMAIN con THEN con[ev.d] ELSE c
        ob == IF ev.c \in DOMAIN O THEN O[ev.c].es ELSE <<>>
        od == IF ev.d \in DOMAIN O THEN O[ev.d].es ELSE <<>> IN
    CASE ev.op \in {"new", "cap", "rng"} -> ev.c \notin DOMAIN O
      [] ev.op \in {"cc", "cca"} -> ev.c \notin DOMAIN O /\ Untouched(ev.d, O)
      [] ev.op \in {"mc", "mca"} -> ev.c \notin DOMAIN O /\ ev.d \in DOMAIN O /\ SubSet(od, s.es)
      [] ev.op = "ca" -> Untouched(ev.d, O) /\ ev.c \in DOMAIN O /\ StripAll(F, ob) \subseteq (StripAll(F, c.es) \cup StripAll(F, s.es))
      [] ev.op = "ma" -> /\ ev.c \in DOMAIN O /\ ev.d \in DOMAIN O /\ SubSet(od, s.es)
                         /\ StripAll(F, ob) \subseteq (StripAll(F, c.es) \cup StripAll(F, s.es))
      [] ev.op = "asg" -> ev.c \in DOMAIN O /\ (EqC(c.es, ob) \/ PrefixRun(<<>>, ev.e, c.q, ob)
                            \/ StripAll(F, ob) \subseteq (StripAll(F, c.es) \cup StripAll(F, ev.e)))
      [] ev.op = "ins" ->
            \/ Untouched(ev.c, O)
            \* m[k] = v is two steps: the new element may already be there; a failed assignment may have happened or not
            \/ Assigns(x[1]) /\ EqC(Assign(F, c.q, c.es, x[2], ev.e[1]), ob)
            \/ x[1] \in {30, 31, 32, 42, 47} /\ EqC(Assign(F, c.q, c.es, x[2], WithV(F, ev.e[1], 0)), ob) /\ ~Conflict(F, c.q, c.es, ev.e[1])
      [] ev.op \in {"insr", "fil"} -> ev.c \in DOMAIN O /\ PrefixRun(c.es, ev.e, c.q, ob)
      [] ev.op = "seq" -> ev.c \in DOMAIN O /\ \E i \in 0..Len(x) : SameSet(SeqRes(c, SubSeq(x, 1, i)), ob)
      [] ev.op = "bulk" -> IF x[4] = 0 THEN PrefixRun(c.es, [i \in DOMAIN BulkKeys(x) |-> BulkE(BulkKeys(x)[i])], c.q, ob)
                           ELSE SubSet(ob, c.es) /\ SubSet(BulkRes(c, x), ob)
      [] ev.op \in {"erf", "erw", "err"} -> ev.c \in DOMAIN O /\ SubSet(ob, c.es)
                           /\ SubSet(IF ev.op = "err" THEN RemoveRange(c.es, x[1], x[2]) ELSE EraseIf(c.es, x[1], x[2]), ob)
      [] ev.op \in {"er", "eri", "at", "eqq", "bkt", "rsv", "rh", "mlf", "ndr", "nmv", "nsw", "clr", "del"} ->
            UntouchedIf(ev.c, O) /\ (ev.op = "eqq" => UntouchedIf(ev.d, O))
      [] ev.op \in {"ext", "exi"} -> Untouched(ev.c, O)
      [] ev.op = "sw" -> Untouched(ev.c, O) /\ Untouched(ev.d, O)
      [] ev.op \in {"mut", "mua"} -> TRUE
      [] ev.op = "ali" -> Untouched(ev.c, O) \/ (AliAssigns(ev) /\ EqC(Assign(F, c.q, c.es, 0, AliE(ev)), ob))
      [] ev.op \in {"nin", "nia"} ->
            \* the element is either still in the handle or in the container
            LET h == ev.d + 1 IN
            \/ Untouched(ev.c, O) /\ (MatchH(hnd[h], ev.n[h]))
            \/ ev.op = "nin" /\ hnd[h].a >= 0 /\ EqC(InsertNode(F, c.q, c.es, x[1], IF hnd[h].a = c.a THEN hnd[h].e ELSE WithP(F, hnd[h].e, Wild)), ob) /\ ev.n[h].a < 0
            \/ ev.op = "nia" /\ SameSet(Assign(F, c.q, c.es, x[1], hnd[h].e), ob)
      [] ev.op = "mrg" ->
            LET tot == StripAll(F, c.es) \cup StripAll(F, s.es) IN
            /\ ev.c \in DOMAIN O /\ ev.d \in DOMAIN O
            /\ SubSet(c.es, ob) /\ SubSet(od, s.es)
            /\ Len(ob) + Len(od) = Len(c.es) + Len(s.es)
            /\ \A i \in 1..Len(s.es) : \/ Strip(F, s.es[i]) \in StripAll(F, od)
                                       \/ Strip(F, s.es[i]) \in StripAll(F, ob)
      [] OTHER -> FALSE
\* Slots that are not operands of the failed operation are untouched.
ThrownOthers(ev, O) == \A s \in DOMAIN con : (s # ev.c /\ (s # ev.d \/ ev.op \in {"ext", "exi", "nin", "nia", "ndr"})) => (s \in DOMAIN O /\ con[s].es = O[s].es)

-----------------------------------------------------------------------------
(* Capacity and load: may be exceeded only while the maximum load factor was lowered below the load. *)
CapFails(ev, O) == UNION {
    LET o == O[s]  bad == ~(o.z[4] = 1 /\ o.z[5] = 1)
        oth == IF s = ev.c THEN ev.d ELSE ev.c                        \* the other operand
        src == IF ev.op \in {"cc", "cca", "mc", "mca", "ca", "ma", "sw", "mrg"} /\ s \in {ev.c, ev.d} /\ oth \in DOMAIN con THEN con[oth].x ELSE FALSE
        was == s \in DOMAIN con /\ con[s].x
        grew == s \in DOMAIN con /\ Len(o.es) > Len(con[s].es) /\ ev.op \notin {"cc", "cca", "mc", "mca", "ca", "ma", "sw"}
        excused == ev.op = "mlf" \/ ((was \/ src) /\ ~grew /\ ~(ev.op \in {"rsv", "rh"} /\ s = ev.c /\ ev.t = 0)) IN
    IF bad /\ ~excused THEN {IF o.z[4] # 1 THEN "cap" ELSE "lf"} ELSE {} : s \in DOMAIN O}

Fails(ev, O) ==
    IF ev.op = "crash" THEN {"crash"} ELSE
    IF ev.op = "end" THEN
        (IF ev.g[1] # 0 \/ ev.g[2] # 0 THEN {"live"} ELSE {}) \cup (IF ev.g[4] # 0 THEN {"blocks"} ELSE {}) \cup (IF ev.g[3] # 0 THEN {"errs"} ELSE {})
    ELSE
    UNION {StateFails(O[s]) : s \in DOMAIN O} \cup WorldFails(ev, O) \cup CapFails(ev, O) \cup
    (IF ev.t = 0 THEN OkFails(ev, O)
     ELSE IF ev.t = 1 THEN (IF ThrownOK(ev, O) /\ ThrownOthers(ev, O) THEN {} ELSE {"thrown"})
     ELSE {"swallowed"})

-----------------------------------------------------------------------------
(* Which aspects of which operations belong to which property. *)
Mutators == {"ins", "insr", "fil", "bulk", "seq", "ali", "nin", "nia"}
Erasers == {"er", "eri", "err", "erf", "erw", "clr"}
InScope(op, k, t) ==
    k = "crash" \/ Prop = "ALL" \/
    CASE Prop = "C01" -> k \in {"lookup", "size", "content", "dup"} \/ (k = "ret" /\ op = "at")
      [] Prop = "C02" -> k \in {"dup", "size", "lookup"} \/ (k \in {"content", "ret"} /\ op \in Mutators)
      [] Prop = "C03" -> k \in {"iter", "rv", "size", "content"} \/ (k = "ret" /\ op = "erw")
      [] Prop = "C04" -> k \in {"order", "ends", "rv", "content"} \/ (k = "ret" /\ op \in {"ins", "nin", "nia", "er", "eri", "err"})
      [] Prop = "C05" -> k \in {"size", "lookup", "order", "rv", "iter"} \/ (k \in {"content", "ret", "addr"} /\ op \in Erasers)
      [] Prop = "C06" -> k \in {"cap", "lf", "lookup", "size", "content", "order", "mlf"} \/ (k = "ret" /\ op \in {"rsv", "rh", "fil", "at"})
      [] Prop = "C07" -> k \in {"content", "srccontent", "other", "order", "lookup", "size", "rv", "iter", "func"}
      [] Prop = "C08" -> k \in {"content", "srccontent", "other", "order", "lookup", "size", "rv", "iter", "copies", "mlf", "addr", "ends"}
      [] Prop = "C09" -> k \in {"addr", "errs", "live", "node"}
      [] Prop = "C10" -> k \in {"node", "content", "srccontent", "order", "ret", "lookup", "size", "live", "errs", "rv", "copies", "addr", "blocks", "alloc"}
      [] Prop = "C11" -> F.nk > 1 /\ k \in {"content", "lookup", "ret", "dup", "size", "iter", "errs", "live", "order"}
      [] Prop = "C12" -> k \in {"args", "content", "addr", "order"} \/ (k = "ret" /\ op \in {"ins", "at", "mua"})
      [] Prop = "C13" -> k \in {"live", "blocks", "errs", "alloc"}
      [] Prop = "C14" -> k \in {"thrown", "swallowed"} \/ ((t = 1 \/ thr) /\ k \notin {"het", "copies"})
      [] Prop = "C15" -> op = "eqq" /\ k \in {"ret", "content", "other"}
      [] Prop = "C16" -> k \in {"alloc", "blocks", "errs"} \/ (k \in {"content", "srccontent", "size", "lookup"} /\ op \in {"cc", "cca", "mc", "mca", "ca", "ma", "sw"})
      [] Prop = "C17" -> k \in {"func", "het", "lookup"} \/ (k \in {"content", "ret", "dup"})
      [] Prop = "C18" -> TRUE
      [] Prop = "C19" -> k \in {"content", "order", "size", "lookup", "iter", "dup"}
      [] Prop = "C20" -> op = "bkt" \/ k = "lookup"
      [] Prop = "C21" -> op = "ali" /\ k \in {"content", "ret", "errs", "live", "lookup", "dup", "size", "args", "order"}
      [] OTHER -> Assert(FALSE, <<"unknown property", Prop>>)

-----------------------------------------------------------------------------
NoF == [nk |-> 1, map |-> FALSE, ord |-> FALSE, stable |-> FALSE, dense |-> FALSE, u |-> 0, eqv |-> 0, pol |-> -1]
Init == l = 1 /\ F = NoF /\ con = << >> /\ hnd = <<NoHandle, NoHandle>> /\ thr = FALSE /\ nbad = 0

Begin(ev) ==
    /\ F' = [nk |-> ev.cfg[1], map |-> ev.cfg[2] = 1, ord |-> ev.cfg[3] = 1, stable |-> ev.cfg[4] = 1, dense |-> ev.cfg[5] = 1,
             u |-> ev.cfg[6], eqv |-> ev.cfg[7], pol |-> ev.cfg[8]]
    /\ con' = << >> /\ hnd' = <<NoHandle, NoHandle>> /\ thr' = FALSE /\ nbad' = nbad

Step(ev) ==
    LET O == IF ev.op = "crash" THEN << >> ELSE ObsMap(ev)
        K == Fails(ev, O)
        B == {k \in K : InScope(ev.op, k, IF ev.op = "crash" THEN 0 ELSE ev.t)}
    IN
    /\ con' = [s \in DOMAIN O |-> AsCon(O[s])]
    /\ hnd' = IF ev.op = "crash" \/ ev.op = "end" \/ Len(ev.n) = 0 THEN <<NoHandle, NoHandle>> ELSE ev.n
    /\ thr' = (thr \/ (ev.op # "crash" /\ ev.t = 1))
    /\ IF B = {} THEN nbad' = nbad ELSE nbad' = nbad + 1 /\ PrintT(<<"REJECT", l, ev.op, B, K>>)
    /\ F' = F

Next == l <= Len(Trace) /\ l' = l + 1 /\ (IF Trace[l].op = "begin" THEN Begin(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars

Done == l > Len(Trace) => PrintT(<<"DONE", Len(Trace), nbad>>)
=============================================================================
