------------------------------ MODULE MC_Storage -------------------------------
(* Every history of storage operations over a few slots: no block is ever left  *)
(* without exactly one owner while it lives, and none is released twice.  With  *)
(* Emit the histories are printed: they are replayed on the real code.          *)
EXTENDS Storage, StorageData, TLC
CONSTANTS Slot, Depth, Level, BS, Solvers, EmitAt    \* Level "array" or "matrix"
VARIABLES s, h
MCUnset == -7
Init == s = [blk |-> <<>>, obj |-> [k \in Slot |-> <<>>], data |-> <<>>] /\ h = <<>>
Do(op, args, t) == s' = t /\ h' = Append(h, <<op>> \o args)
Free(k) == ~Present(s, k) /\ \A j \in Slot : j < k => Present(s, j)         \* the first empty slot
UserBlocks == {b \in DOMAIN s.blk : UserLive(s, b)}
ArrayOps ==
    \/ \E n \in {2, 3} : Cardinality(UserBlocks) < 2 /\ Do("ualloc", <<n>>, DoUserAlloc(s, UserVals(n)))
    \/ \E b \in UserBlocks : Do("ufree", <<b>>, DoUserFree(s, {b}))
    \/ \E k \in Slot : Free(k) /\
         \/ Do("null", <<k>>, DoNull(s, k))
         \/ \E n \in {0, 1, 3} : Do("alloc", <<k, n>>, DoAlloc(s, k, n))
         \/ \E b \in UserBlocks : \/ \E o \in {0, 1} : Do("wrap", <<k, b, o, s.blk[b].len - o>>, DoWrap(s, k, b, o, s.blk[b].len - o))
                                  \/ Do("own", <<k, b>>, DoOwn(s, k, b))
         \/ \E j \in Slot : /\ Kind(s, j) = "arr"
                            /\ \/ Do("move", <<k, j>>, DoMove(s, k, j))
                               \/ Do("const", <<k, j>>, DoConst(s, k, j))
                               \/ \E o \in {0, 1} : Usable(s, j) /\ o < Ob(s, j).h[1].n /\ Do("share", <<k, j, o>>, DoShare(s, k, j, o))
         \/ \E j \in Slot : Kind(s, j) = "carr" /\ Do("move", <<k, j>>, DoMove(s, k, j))
    \/ \E k \in Slot : Present(s, k) /\
         \/ Do("del", <<k>>, DoDelete(s, k))
         \/ \E n \in {0, 2} : Do("resize", <<k, n>>, DoResize(s, k, n))
         \/ \E b \in UserBlocks : \/ Do("rewrap", <<k, b, 0, s.blk[b].len>>, DoRewrap(s, k, b, 0, s.blk[b].len))
                                  \/ Kind(s, k) = "arr" /\ Do("take", <<k, b>>, DoTake(s, k, b))
         \/ Kind(s, k) = "arr" /\ Usable(s, k) /\ Do("write", <<k, 1, 0, Len(h) + 1>>, DoWrite(s, k, 1, 0, Len(h) + 1))
Sets == {d \in DOMAIN s.data : DataLive(s, d)}
MatrixOps ==
    \/ \E q \in DOMAIN Patterns : Cardinality(Sets) < 2 /\ Do("data", <<q>>, DoData(s, Pattern(q, BS)))
    \/ \E d \in Sets : Do("dfree", <<d>>, DoUserFree(s, DataB(s, d)))
    \/ \E k \in Slot : Free(k) /\
         \/ Do("mnull", <<k>>, DoMNull(s, k, "sm"))
         \/ \E q \in DOMAIN Patterns : Do("bstruct", <<k, q>>, DoBStruct(s, k, Pattern(q, BS)))
         \/ Do("bnull", <<k>>, DoMNull(s, k, "bm"))
         \/ \E d \in Sets : \/ Do("mwrap", <<k, d>>, DoMWrap(s, k, "sm", d))
                            \/ Do("mtake", <<k, d>>, DoMTake(s, k, "sm", d))
                            \/ Do("bwrap", <<k, d>>, DoMWrap(s, k, "bm", d))
                            \/ Do("braw", <<k, d>>, DoMTake(s, k, "bm", d))
                            \/ Do("vwrap", <<k, d>>, DoMWrap(s, k, "view", d))
                            \/ Do("cwrap", <<k, d>>, DoMWrap(s, k, "csm", d))
         \/ \E j \in Slot : Kind(s, j) = "sm" /\
                \/ Do("mmove", <<k, j>>, DoMove(s, k, j))
                \/ Do("mconst", <<k, j>>, DoConst(s, k, j))
                \/ Do("bsr", <<k, j>>, DoInto(s, k, j, "bm"))
                \/ Usable(s, j) /\ Do("mshare", <<k, j>>, DoMShare(s, k, j))
         \/ \E j \in Slot : Kind(s, j) = "csm" /\
                \/ Do("mmove", <<k, j>>, DoMove(s, k, j))
                \/ Do("view", <<k, j>>, DoInto(s, k, j, "view"))
                \/ Usable(s, j) /\ \/ Ob(s, j).h[1].n = Ob(s, j).c[1] + 1 /\ Solvers /\ \E q \in 1..9 : Do("solver", <<k, j, q>>, DoSolver(s, k, j, <<>>))
                                   \/ Do("low", <<k, j>>, Triangle(s, k, j, TRUE))
                                   \/ Do("upp", <<k, j>>, Triangle(s, k, j, FALSE))
         \/ \E j \in Slot : Kind(s, j) = "bm" /\ Usable(s, j) /\
                \/ Do("bcopy", <<k, j>>, DoBCopy(s, k, j))
                \/ Do("bshare", <<k, j>>, DoMShare(s, k, j))
    \/ \E k \in Slot : Present(s, k) /\
         \/ Do("del", <<k>>, DoDelete(s, k))
         \/ Kind(s, k) \in {"sm", "bm"} /\ Usable(s, k) /\ Do("zero", <<k>>, DoBZero(s, k))
         \/ Kind(s, k) = "solver" /\ Usable(s, k) /\ Do("recompute", <<k>>, DoRecompute(s, k, {}, <<>>))
         \/ Kind(s, k) = "bm" /\ \E q \in DOMAIN Patterns : Do("bset", <<k, q>>, DoBSet(s, k, Pattern(q, BS)))
Next == Len(h) < Depth /\ (IF Level = "array" THEN ArrayOps ELSE MatrixOps)
View == s
Owned == OneOwner(s) /\ OwnedOnce(s)
\* once everything is gone, nothing is left
NothingLeft == (\A k \in Slot : ~Present(s, k)) => \A b \in DOMAIN s.blk : s.blk[b].live => s.blk[b].user
\* a block that was released stays so, and its number is not given out again
ReleasedStays == [][\A b \in DOMAIN s.blk : ~s.blk[b].live => ~s'.blk[b].live]_s
Emit == EmitAt = Len(h) => PrintT(<<"HIST", h>>)
================================================================================
