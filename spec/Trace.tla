--------------------------------- MODULE Trace --------------------------------
(* Common part of the trace specifications.  The log is a sequence of lines;   *)
(* lines of one case follow each other and carry its number.  A trace          *)
(* specification steps over line l with the action the line names.  A line     *)
(* that no action of the specification explains is reported by Reject and the  *)
(* rest of its case is skipped, so that every case of the log is judged.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Line == Log[l]
More == l <= Len(Log)
Reject(why) == PrintT(<<"REJECT", Log[l].case, Log[l].step, why>>)
\* the line is accepted, or reported
Judge(why) == IF why = "" THEN TRUE ELSE Reject(why)
RECURSIVE After(_)
After(k) == IF k > Len(Log) THEN k ELSE IF Log[k].case = Log[l].case THEN After(k + 1) ELSE k
Done == l = Len(Log) + 1 /\ PrintT(<<"DONE", Len(Log)>>) /\ l' = l + 1
Has(r, f) == f \in DOMAIN r
\* a sequence of <<condition, description>>: the description of the first that fails, or ""
RECURSIVE FirstFailure(_)
FirstFailure(s) == IF s = <<>> THEN "" ELSE IF s[1][1] THEN FirstFailure(Tail(s)) ELSE s[1][2]
===============================================================================
