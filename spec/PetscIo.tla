-------------------------------- MODULE PetscIo --------------------------------
(* What a PETSc program relies on besides the solvers: its run-time options, as *)
(* the typed getters give them, and vectors and matrices read from files.       *)
(* The options are a data base: names with a value.  A value is known by what   *)
(* it means as each type: [none, text, chars, int, real, bool, ints, intsok],   *)
(* <<>> where the text means nothing of that type; none: given without a value. *)
EXTENDS Coo, TLC
Empty == [x \in {} |-> <<>>]
Given(db, n) == n \in DOMAIN db
SetOption(db, n, v) == (n :> v) @@ db
Without(db, n) == [x \in DOMAIN db \ {n} |-> db[x]]
\* outcomes of getters
Value(v) == [out |-> "value", v |-> v]
NotGiven == [out |-> "not given", v |-> <<>>]
Malformed == [out |-> "malformed", v |-> <<>>]
Single(m) == IF m = <<>> THEN Malformed ELSE Value(m[1])
GetInt(db, n) == IF ~Given(db, n) \/ db[n].none THEN NotGiven ELSE Single(db[n].int)
GetReal(db, n, default) == IF ~Given(db, n) \/ db[n].none THEN Value(default) ELSE Single(db[n].real)
\* a flag may be given alone
GetBool(db, n) == IF ~Given(db, n) THEN NotGiven ELSE IF db[n].none THEN Value(1) ELSE Single(db[n].bool)
\* no more than len characters are expected
GetString(db, n, len) == IF ~Given(db, n) THEN NotGiven ELSE Value(SubSeq(db[n].chars, 1, IF Len(db[n].chars) < len THEN Len(db[n].chars) ELSE len))
\* no more than len entries are expected
Entries(db, n, len) == IF ~db[n].intsok THEN Malformed ELSE Value(SubSeq(db[n].ints, 1, IF Len(db[n].ints) < len THEN Len(db[n].ints) ELSE len))
GetInts(db, n, len) == IF ~Given(db, n) \/ db[n].none THEN NotGiven ELSE Entries(db, n, len)
GetIntsIfAny(db, n, len) == IF ~Given(db, n) \/ db[n].none THEN Value(<<>>) ELSE Entries(db, n, len)
\* ---- matrices ----
BlockSize(db) == IF Given(db, "-mat_block_size") THEN db["-mat_block_size"].int[1] ELSE 1
Type(db) == IF Given(db, "-mat_type") THEN db["-mat_type"].text ELSE "aij"
Blocked(db) == Type(db) \in {"baij", "seqbaij"}
Converts == {3, 4, 7}         \* sizes of blocks the faster way of reading knows
\* the blocks in which the matrix read is stored
ReadIn(db, faster) == IF faster THEN (IF BlockSize(db) \in Converts THEN BlockSize(db) ELSE 1) ELSE IF Blocked(db) THEN BlockSize(db) ELSE 1
ReportedSize(db, faster) == IF faster THEN ReadIn(db, faster) ELSE BlockSize(db)
Covered(es, b) == UNION {{<<i, j>> : i \in ((e[1] \div b) * b)..((e[1] \div b) * b + b - 1), j \in ((e[2] \div b) * b)..((e[2] \div b) * b + b - 1)} : e \in ToSet(es)}
\* the matrix as it must be: what is stored, and where
MatrixOf(es, b, zero) == LET V == ValueAt(es) IN [p \in Covered(es, b) |-> IF p \in DOMAIN V THEN V[p] ELSE zero]
================================================================================
