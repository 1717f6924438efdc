------------------------------ MODULE AssemblyHist -----------------------------
(* Histories of assembly calls on several matrices: the stimuli for module      *)
(* Assembly.  TLC enumerates the short ones and draws long ones at random; each *)
(* is replayed on the real code and judged by T_Assembly.                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Objects, Depth
VARIABLES h,      \* the calls so far, <<operation, object>>
          st      \* per object: "none", "blank" (structure without values), "full"
Live == {k \in Objects : st[k] # "none"}
Ops(k) == IF st[k] = "none" THEN {"new", "wrap", "take", "move"} \cup (IF Live # {} THEN {"copy"} ELSE {})
          ELSE {"struct", "zero", "dzero", "sub", "upd", "udg", "scale", "par"}
               \cup (IF st[k] = "full" THEN {"query"} ELSE {}) \cup (IF Live = Objects THEN {"equal", "del"} ELSE {})
After(op, k) == CASE op \in {"new", "struct"} -> "blank" [] op \in {"wrap", "take", "move", "zero"} -> "full"
                  [] op = "copy" -> IF \E j \in Live : st[j] = "full" THEN "full" ELSE "blank"
                  [] op = "del" -> "none" [] OTHER -> st[k]
Init == h = <<>> /\ st = [k \in Objects |-> "none"]
Next == /\ Len(h) < Depth
        /\ \E k \in Objects : \E op \in Ops(k) :
             /\ h = <<>> => k = 1
             /\ h' = Append(h, <<op, k>>) /\ st' = [st EXCEPT ![k] = After(op, k)]
Last == IF h = <<>> THEN <<"", 0>> ELSE h[Len(h)]
Useful == Len(h) = Depth /\ Last[1] \notin {"new", "wrap", "take", "move", "struct"}
Emit == Useful => PrintT(<<"HIST", h>>)
================================================================================
