------------------------------- MODULE T_PetscIo -------------------------------
(* Sessions of the real code; the state is the data base of options.            *)
EXTENDS PetscIo, Trace
VARIABLE db
tvars == <<db>>
Init == l = 1 /\ db = Empty
Zero == <<0, 0>>
D(e) == IF e.step = 1 THEN Empty ELSE db
Expected(e) == CASE e.op = "int" -> GetInt(D(e), e.name)
                 [] e.op = "bool" -> GetBool(D(e), e.name)
                 [] e.op = "real" -> GetReal(D(e), e.name, e.default)
                 [] e.op = "str" -> GetString(D(e), e.name, e.len)
                 [] e.op = "ints" -> GetInts(D(e), e.name, e.len)
                 [] e.op = "oints" -> GetIntsIfAny(D(e), e.name, e.len)
                 [] e.op = "has" -> Value(IF Given(D(e), e.name) THEN 1 ELSE 0)
Getter(e) == LET x == Expected(e) IN
    CASE x.out = "value" -> FirstFailure(<< <<e.r = 0, "an option that is given, or has a default, was refused">>, <<e.v = x.v, "wrong value of an option">>, <<e.leak <= 0, "storage was lost">> >>)
      [] x.out = "not given" -> FirstFailure(<< <<e.r = 1, "an option that is not given was not reported so">>, <<e.leak <= 0, "storage was lost">> >>)
      [] x.out = "malformed" -> IF e.r # 0 THEN "" ELSE "a malformed option was not refused"
Pairs(e) == [k \in DOMAIN e.i |-> <<e.i[k], e.j[k]>>]
Stored(e) == LET want == MatrixOf(e.es, ReadIn(D(e), e.faster = 1), Zero) IN FirstFailure(<<
    <<Len(e.i) = Cardinality(DOMAIN want) /\ ToSet(Pairs(e)) = DOMAIN want, "the matrix stores other places">>,
    <<\A k \in DOMAIN e.v : Pairs(e)[k] \in DOMAIN want => e.v[k] = want[Pairs(e)[k]], "wrong values">> >>)
Converted(e) == IF e.h[1] # e.nr \/ e.h[2] # e.nc THEN "wrong dimensions" ELSE Stored(e)
ReadMatrix(e) == LET w == FirstFailure(<<
    <<e.r = 0, "a matrix could not be read">>,
    <<e.h[1] = e.nr /\ e.h[2] = e.nc, "wrong dimensions">>,
    <<e.h[3] = ReportedSize(D(e), e.faster = 1), "wrong block size">>,
    <<e.faster = 1 \/ (e.h[4] = 1) = Blocked(D(e)), "wrong type of matrix">> >>) IN
    IF w # "" THEN w ELSE LET s == Stored(e) IN IF s # "" THEN s ELSE IF e.leak > 0 THEN "storage was lost" ELSE ""
Why(e) ==
    IF e.crash # 0 THEN "the call crashed"
    ELSE IF e.op \in {"set", "clr"} THEN ""
    ELSE IF e.op = "vec" THEN FirstFailure(<< <<e.r = 0, "a vector could not be read">>, <<e.v = e.want, "wrong vector">>, <<e.leak <= 0, "storage was lost">> >>)
    ELSE IF e.op = "conv" THEN (IF e.r # 0 THEN "a conversion failed" ELSE LET w == Converted(e) IN IF w # "" THEN w
        ELSE FirstFailure(<< <<e.b = e.wantb, "wrong right-hand side written">>, <<e.x = e.wantx, "wrong solution written">> >>))
    ELSE IF e.op = "mat" THEN (IF Accepted(e.header) THEN ReadMatrix(e) ELSE IF e.r # 0 THEN "" ELSE "a header was not refused")
    ELSE IF e.op = "err" THEN (IF e.code = 0 THEN (IF e.r = 0 THEN "" ELSE "success was reported as an error") ELSE IF e.r \in {2, 3} /\ e.v > 0 THEN "" ELSE "an error was not reported")
    ELSE Getter(e)
Step == More /\ LET e == Line IN LET w == Why(e) IN
    /\ Judge(w)
    /\ IF w = "" THEN l' = l + 1 /\ db' = (CASE e.op = "set" -> SetOption(D(e), e.name, e.val) [] e.op = "clr" -> Without(D(e), e.name) [] OTHER -> D(e))
       ELSE l' = After(l) /\ UNCHANGED tvars
Next == Step \/ (Done /\ UNCHANGED tvars)
================================================================================
