-------------------------------- MODULE History -------------------------------
(* Histories of calls on solver objects that view one matrix: the stimuli for   *)
(* module Solver.  TLC enumerates them; every printed history is replayed on    *)
(* the real code, and what it does is validated against Solver.                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Objects, Depth
VARIABLES h,      \* the calls so far, <<operation, object>>
          st      \* per object: "none", "new", "ready"
Ops(k) == CASE st[k] = "none" -> {"new"}
            [] st[k] = "new" -> {"cmp", "del"}
            [] OTHER -> {"cmp", "app", "rel", "del"}
After(op, k) == CASE op = "new" -> "new" [] op = "cmp" -> "ready" [] op = "del" -> "none" [] OTHER -> st[k]
Init == h = <<>> /\ st = [k \in Objects |-> "none"]
Last == IF h = <<>> THEN <<"", 0>> ELSE h[Len(h)]
Call(op, k) == /\ h' = Append(h, <<op, k>>) /\ st' = [st EXCEPT ![k] = After(op, k)]
Next == /\ Len(h) < Depth
        /\ \/ \E k \in Objects : \E op \in Ops(k) :
                /\ \A j \in Objects : j < k => st[j] # "none" \/ \E q \in 1..Len(h) : h[q] = <<"new", j>>     \* objects are interchangeable
                /\ op = "del" => \E q \in 1..Len(h) : h[q][2] # k /\ h[q][2] # 0      \* only when another object is there to notice
                /\ Call(op, k)
           \/ /\ Last[1] \notin {"val", ""} /\ h' = Append(h, <<"val", 0>>) /\ UNCHANGED st
\* worth replaying: ends with an observation, which comes after something that could have disturbed it
Useful == /\ Len(h) = Depth /\ Last[1] \in {"app", "rel"}
          /\ \E q \in 1..(Len(h)-1) : h[q][1] \in {"app", "rel", "val", "del"}
Emit == Useful => PrintT(<<"HIST", h>>)
===============================================================================
