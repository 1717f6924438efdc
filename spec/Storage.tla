-------------------------------- MODULE Storage --------------------------------
(* Who owns which block of memory.  Blocks hold a number of entries and belong  *)
(* to the user or to the library.  Objects - arrays, matrices, views, solvers - *)
(* consist of holders; a holder refers to a stretch of one block and may be its *)
(* owner.  State s: s.blk the blocks ever made, s.obj per slot <<object>> or    *)
(* <<>>, s.data the sets of arrays of a matrix the user made.                   *)
(* Every operation is a function from state to state.                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANT Unset                                   \* an entry nobody has written
NullH == [b |-> 0, o |-> 0, n |-> 0, own |-> FALSE]
H(b, o, n, own) == [b |-> b, o |-> o, n |-> n, own |-> own]
Object(kind, h, c, x) == [kind |-> kind, h |-> h, c |-> c, x |-> x]
C0 == <<0, 0, 0>>
Fresh(n) == [len |-> n, live |-> TRUE, user |-> FALSE, vals |-> [q \in 1..n |-> Unset]]
Filled(v, user) == [len |-> Len(v), live |-> TRUE, user |-> user, vals |-> v]
Add(s, bs) == [s EXCEPT !.blk = @ \o bs]
New(s, q) == Len(s.blk) + q                      \* the number of the q-th block added next
Release(s, B) == [s EXCEPT !.blk = [b \in DOMAIN @ |-> IF b \in B THEN [@[b] EXCEPT !.live = FALSE] ELSE @[b]]]
Give(s, B) == [s EXCEPT !.blk = [b \in DOMAIN @ |-> IF b \in B THEN [@[b] EXCEPT !.user = FALSE] ELSE @[b]]]
Put(s, k, o) == [s EXCEPT !.obj[k] = <<o>>]
Ob(s, k) == s.obj[k][1]
Present(s, k) == s.obj[k] # <<>>
Kind(s, k) == IF Present(s, k) THEN Ob(s, k).kind ELSE ""
OwnedBy(o) == {o.h[q].b : q \in {q \in DOMAIN o.h : o.h[q].own}} \cup o.x
HLive(s, h) == h.n > 0 /\ s.blk[h.b].live
Usable(s, k) == Present(s, k) /\ \A q \in DOMAIN Ob(s, k).h : HLive(s, Ob(s, k).h[q])
Nulled(o) == [o EXCEPT !.h = [q \in DOMAIN @ |-> NullH], !.c = C0]
UserLive(s, b) == b \in DOMAIN s.blk /\ s.blk[b].live /\ s.blk[b].user
Contents(s, h) == SubSeq(s.blk[h.b].vals, h.o + 1, h.o + h.n)

\* ---- arrays: objects of one holder ----
Arr(h) == Object("arr", <<h>>, C0, {})
DoNull(s, k) == Put(s, k, Arr(NullH))
DoAlloc(s, k, n) == Put(Add(s, <<Fresh(n)>>), k, Arr(H(New(s, 1), 0, n, TRUE)))
DoWrap(s, k, b, o, n) == Put(s, k, Arr(H(b, o, n, FALSE)))
DoOwn(s, k, b) == Put(Give(s, {b}), k, Arr(H(b, 0, s.blk[b].len, TRUE)))
DoShare(s, k, j, o) == LET h == Ob(s, j).h[1] IN Put(s, k, Arr(H(h.b, h.o + o, h.n - o, FALSE)))
DoMove(s, k, j) == [Put(s, k, Ob(s, j)) EXCEPT !.obj[j] = <<Nulled(Ob(s, j))>>]
AsConst(kind) == IF kind = "arr" THEN "carr" ELSE "csm"
DoConst(s, k, j) == [Put(s, k, [Ob(s, j) EXCEPT !.kind = AsConst(@)]) EXCEPT !.obj[j] = <<Nulled(Ob(s, j))>>]
DoDelete(s, k) == [Release(s, OwnedBy(Ob(s, k))) EXCEPT !.obj[k] = <<>>]
Retarget(s, k, h) == Put(Release(s, OwnedBy(Ob(s, k))), k, [Ob(s, k) EXCEPT !.h = <<h>>])
DoResize(s, k, n) == Retarget(Add(s, <<Fresh(n)>>), k, H(New(s, 1), 0, n, TRUE))
DoRewrap(s, k, b, o, n) == Retarget(s, k, H(b, o, n, FALSE))
DoTake(s, k, b) == Retarget(Give(s, {b}), k, H(b, 0, s.blk[b].len, TRUE))
DoWrite(s, k, q, i, v) == LET h == Ob(s, k).h[q] IN [s EXCEPT !.blk[h.b].vals[h.o + i + 1] = v]
DoUserAlloc(s, v) == Add(s, <<Filled(v, TRUE)>>)
DoUserFree(s, B) == Release(s, B)

\* ---- matrices: holders for row starts, columns, values, diagonal positions, row ends ----
\* a pattern p: [n, bs, rp, ci, v, di]
PN(p) == p.rp[p.n + 1]
DoData(s, p) == [Add(s, <<Filled(p.rp, TRUE), Filled(p.ci, TRUE), Filled(p.v, TRUE), Filled(p.di, TRUE)>>)
                 EXCEPT !.data = Append(@, [p |-> p, b |-> [q \in 1..4 |-> New(s, q)]])]
DataB(s, d) == {s.data[d].b[q] : q \in 1..4}
DataLive(s, d) == d \in DOMAIN s.data /\ \A b \in DataB(s, d) : UserLive(s, b)
Counts(p) == <<p.n, PN(p), PN(p)>>
\* the five holders on four blocks; the row ends are the row starts after the first
Five(b, p, own) == <<H(b[1], 0, p.n + 1, own), H(b[2], 0, PN(p), own), H(b[3], 0, PN(p) * p.bs * p.bs, own),
                     H(b[4], 0, p.n, own), H(b[1], 1, p.n, FALSE)>>
Null5 == [q \in 1..5 |-> NullH]
DoMNull(s, k, kind) == Put(s, k, Object(kind, Null5, C0, {}))
DoMWrap(s, k, kind, d) == LET p == s.data[d].p IN Put(s, k, Object(kind, Five(s.data[d].b, p, FALSE), Counts(p), {}))
DoMTake(s, k, kind, d) == LET p == s.data[d].p IN Put(Give(s, DataB(s, d)), k, Object(kind, Five(s.data[d].b, p, TRUE), Counts(p), {}))
DoMShare(s, k, j) == LET o == Ob(s, j) IN Put(s, k, Object("csm", [q \in 1..5 |-> [o.h[q] EXCEPT !.own = FALSE]], o.c, {}))
DoInto(s, k, j, kind) == [Put(s, k, [Ob(s, j) EXCEPT !.kind = kind]) EXCEPT !.obj[j] = <<Nulled(Ob(s, j))>>]
\* new storage for a structure: values not set
Structure(p) == <<Filled(p.rp, FALSE), Filled(p.ci, FALSE), Fresh(PN(p) * p.bs * p.bs), Filled(p.di, FALSE)>>
DoBStruct(s, k, p) == Put(Add(s, Structure(p)), k, Object("bm", Five([q \in 1..4 |-> New(s, q)], p, TRUE), Counts(p), {}))
DoBSet(s, k, p) == DoBStruct(Release(s, OwnedBy(Ob(s, k))), k, p)
DoBCopy(s, k, j) ==
    LET o == Ob(s, j) IN
    Put(Add(s, [q \in 1..4 |-> Filled(Contents(s, o.h[q]), FALSE)]), k,
        Object("bm", [q \in 1..5 |-> IF q = 5 THEN H(New(s, 1), 1, o.h[5].n, FALSE) ELSE H(New(s, q), 0, o.h[q].n, TRUE)], o.c, {}))
DoBZero(s, k) == LET h == Ob(s, k).h[3] IN
    [s EXCEPT !.blk[h.b].vals = [q \in DOMAIN @ |-> IF q > h.o /\ q <= h.o + h.n THEN 0 ELSE @[q]]]
\* a triangular view has row starts and ends of its own and shares the rest
Triangle(s, k, j, lower) ==
    LET o == Ob(s, j) n == o.c[1]
        rp == Contents(s, o.h[1]) di == Contents(s, o.h[4]) re == Contents(s, o.h[5])
        b0 == [q \in 1..n |-> IF lower THEN rp[q] ELSE di[q]]
        e0 == [q \in 1..n |-> IF lower THEN di[q] + 1 ELSE re[q]]
    IN Put(Add(s, <<Filled(b0, FALSE), Filled(e0, FALSE)>>), k,
           Object("csm", <<H(New(s, 1), 0, n, TRUE), [o.h[2] EXCEPT !.own = FALSE], [o.h[3] EXCEPT !.own = FALSE],
                           [o.h[4] EXCEPT !.own = FALSE], H(New(s, 2), 0, n, TRUE)>>,
                  <<n, FoldSet(LAMBDA q, t : t + e0[q] - b0[q], 0, 1..n), o.c[3]>>, {}))
\* a solver takes the matrix it is given and makes x further blocks for itself
DoSolver(s, k, j, lens) == LET t == DoInto(s, k, j, "solver") IN
    Put(Add(t, [q \in DOMAIN lens |-> Fresh(lens[q])]), k, [Ob(t, k) EXCEPT !.x = {New(s, q) : q \in DOMAIN lens}])

\* a later compute or apply may replace some of its further blocks
DoRecompute(s, k, gone, lens) == LET t == Add(Release(s, gone), [q \in DOMAIN lens |-> Fresh(lens[q])]) IN
    Put(t, k, [Ob(s, k) EXCEPT !.x = (@ \ gone) \cup {New(s, q) : q \in DOMAIN lens}])

\* ---- what must always be so ----
Owners(s, b) == {k \in DOMAIN s.obj : Present(s, k) /\ b \in OwnedBy(Ob(s, k))}
OneOwner(s) == \A b \in DOMAIN s.blk : Cardinality(Owners(s, b)) + (IF s.blk[b].live /\ s.blk[b].user THEN 1 ELSE 0) = (IF s.blk[b].live THEN 1 ELSE 0)
OwnedOnce(s) == \A k \in DOMAIN s.obj : Present(s, k) => LET o == Ob(s, k) IN
    \A q, r \in DOMAIN o.h : o.h[q].own /\ o.h[r].own /\ o.h[q].b = o.h[r].b => q = r
================================================================================
