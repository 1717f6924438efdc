------------------------------- MODULE T_Storage -------------------------------
(* Storage operations observed on the real code: which blocks each operation    *)
(* made and released, and what every object refers to and contains afterwards.  *)
EXTENDS Storage, StorageData, Trace
VARIABLE s
TUnset == -7
Slots == 1..5
Empty == [blk |-> <<>>, obj |-> [k \in Slots |-> <<>>], data |-> <<>>]
Init == l = 1 /\ s = Empty
Cur(e) == IF e.step = 1 THEN Empty ELSE s
Perform(t, e) ==
    LET a == e.a k == a[1] j == a[2] P == Pattern(j, e.bs) IN
    CASE e.op = "ualloc" -> DoUserAlloc(t, UserVals(k))
      [] e.op = "ufree" -> DoUserFree(t, {k})
      [] e.op = "null" -> DoNull(t, k)
      [] e.op = "alloc" -> DoAlloc(t, k, j)
      [] e.op = "wrap" -> DoWrap(t, k, j, a[3], a[4])
      [] e.op = "own" -> DoOwn(t, k, j)
      [] e.op = "share" -> DoShare(t, k, j, a[3])
      [] e.op \in {"move", "mmove"} -> DoMove(t, k, j)
      [] e.op \in {"const", "mconst"} -> DoConst(t, k, j)
      [] e.op = "resize" -> DoResize(t, k, j)
      [] e.op = "rewrap" -> DoRewrap(t, k, j, a[3], a[4])
      [] e.op = "take" -> DoTake(t, k, j)
      [] e.op = "write" -> DoWrite(t, k, 1, a[3], a[4])
      [] e.op = "del" -> DoDelete(t, k)
      [] e.op = "data" -> DoData(t, Pattern(k, e.bs))
      [] e.op = "dfree" -> DoUserFree(t, DataB(t, k))
      [] e.op = "mnull" -> DoMNull(t, k, "sm")
      [] e.op = "bnull" -> DoMNull(t, k, "bm")
      [] e.op = "bstruct" -> DoBStruct(t, k, P)
      [] e.op = "bset" -> DoBSet(t, k, P)
      [] e.op = "mwrap" -> DoMWrap(t, k, "sm", j)
      [] e.op = "cwrap" -> DoMWrap(t, k, "csm", j)
      [] e.op = "bwrap" -> DoMWrap(t, k, "bm", j)
      [] e.op = "vwrap" -> DoMWrap(t, k, "view", j)
      [] e.op = "mtake" -> DoMTake(t, k, "sm", j)
      [] e.op = "braw" -> DoMTake(t, k, "bm", j)
      [] e.op \in {"mshare", "bshare"} -> DoMShare(t, k, j)
      [] e.op = "bsr" -> DoInto(t, k, j, "bm")
      [] e.op = "view" -> DoInto(t, k, j, "view")
      [] e.op = "bcopy" -> DoBCopy(t, k, j)
      [] e.op = "zero" -> DoBZero(t, k)
      [] e.op = "low" -> Triangle(t, k, j, TRUE)
      [] e.op = "upp" -> Triangle(t, k, j, FALSE)
      [] e.op = "solver" -> DoSolver(t, k, j, [q \in 1..e.nnew |-> 1])
      [] e.op = "recompute" -> DoRecompute(t, k, ToSet(e.freed) \cap Ob(t, k).x, [q \in 1..e.nnew |-> 1])
After1(e) == Perform(Cur(e), e)
Released(s0, t) == {b \in DOMAIN s0.blk : s0.blk[b].live /\ ~t.blk[b].live}
HolderShown(t, h, x) ==
    /\ x.n = h.n
    /\ h.n > 0 => x.b = h.b /\ x.o = h.o
ContentsShown(t, h, x) == (h.n > 0 /\ t.blk[h.b].live) =>
    LET v == Contents(t, h) IN Len(x.v) = h.n /\ \A q \in 1..h.n : v[q] = Unset \/ x.v[q] = v[q]
Why(e) ==
    LET s0 == Cur(e) t == After1(e) IN
    IF e.crash # 0 THEN "the operation crashed" ELSE
    FirstFailure(<<
      <<ToSet(e.freed) \ Released(s0, t) = {}, "a block was released that should not be">>,
      <<Released(s0, t) \ ToSet(e.freed) = {}, "a block was not released">>,
      <<Len(e.freed) = Cardinality(ToSet(e.freed)), "a block was released twice">>,
      <<e.nnew = Len(t.blk) - Len(s0.blk), "wrong number of new blocks">>,
      <<\A k \in Slots : Len(e.objs[k]) = Len(t.obj[k]), "an object is missing">>,
      <<\A k \in Slots : Present(t, k) /\ Kind(t, k) # "solver" =>
            LET o == Ob(t, k) x == e.objs[k][1] IN
            o.kind = x.kind /\ o.c = x.c /\ Len(x.h) = Len(o.h) /\ \A q \in DOMAIN o.h : HolderShown(t, o.h[q], x.h[q]),
        "an object refers to the wrong storage, or with the wrong size">>,
      <<\A k \in Slots : Present(t, k) /\ Kind(t, k) # "solver" =>
            \A q \in DOMAIN Ob(t, k).h : ContentsShown(t, Ob(t, k).h[q], e.objs[k][1].h[q]), "an object shows wrong contents">> >>)
Step == More /\ LET w == Why(Line) IN
                 /\ Judge(w)
                 /\ IF w = "" THEN s' = After1(Line) /\ l' = l + 1 ELSE l' = After(l) /\ s' = s
Next == Step \/ (Done /\ UNCHANGED s)
================================================================================
