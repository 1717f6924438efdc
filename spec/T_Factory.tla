------------------------------- MODULE T_Factory ------------------------------
(* Names converted by the real code.                                           *)
EXTENDS Factory, FloatRing, Trace
Table(w) == CASE w = "solver" -> SolverNames [] w = "fact" -> FactInitNames [] w = "apply" -> ApplyInitNames
Why(e) == IF e.crash # 0 THEN "the conversion crashed"
          ELSE LET want == Choose(Table(e.table), e.s) IN
               IF e.got = want THEN "" ELSE IF want = Refused THEN "an unknown name was accepted or refused in another way" ELSE "a documented name was not converted to its own method"
Init == l = 1
Next == (More /\ Judge(Why(Line)) /\ l' = l + 1) \/ Done
===============================================================================
