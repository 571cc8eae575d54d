------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Try the compiled routine, fall back to the Python one: every accelerated *)
(* routine of MTfit, with any subset of the extension modules built.  The   *)
(* routine is abstracted to one whose answer depends on every argument in   *)
(* turn (a sum of transformed entries); the compiled form works entry by    *)
(* entry and may give up anywhere (an input of a form it does not take).    *)
(* Whatever is built and wherever it gives up, the answer is that of the    *)
(* Python form for the arguments the caller passed, and the caller's         *)
(* arguments are as they were.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS InPlace, KeepsPartial, Uncaught, SkipsLast   \* the ways it can go wrong
Modules == {"probability", "convert", "chain"}
Routines == {"likelihood", "conversion", "proposal"}
\* the modules a routine needs for its compiled form (proposals make their tensors with the conversions)
Needs(r) == CASE r = "likelihood" -> {"probability"} [] r = "conversion" -> {"convert"} [] r = "proposal" -> {"chain", "convert"}
Values == 0..2
Args == UNION {[1..n -> Values] : n \in 1..3}
F(v) == v * v + 1                           \* not additive, so a damaged or repeated entry shows
RECURSIVE Total(_)
Total(a) == IF a = << >> THEN 0 ELSE F(Head(a)) + Total(Tail(a))
VARIABLES built, routine, given, args, pc, k, acc, answer
vars == << built, routine, given, args, pc, k, acc, answer >>
Init == /\ built \in SUBSET Modules /\ routine \in Routines
        /\ given \in Args /\ args = given
        /\ pc = "choose" /\ k = 0 /\ acc = 0 /\ answer = 0
Choose == /\ pc = "choose"
          /\ pc' = IF Needs(routine) \subseteq built THEN "compiled" ELSE "python"
          /\ UNCHANGED << built, routine, given, args, k, acc, answer >>
Compiled == /\ pc = "compiled" /\ k < Len(args)
            /\ k' = k + 1
            /\ acc' = IF SkipsLast /\ k + 1 = Len(args) THEN acc ELSE acc + F(args[k + 1])
            /\ args' = IF InPlace THEN [args EXCEPT ![k + 1] = F(args[k + 1])] ELSE args
            /\ UNCHANGED << built, routine, given, pc, answer >>
CompiledEnds == /\ pc = "compiled" /\ k = Len(args)
                /\ answer' = acc /\ pc' = "done"
                /\ UNCHANGED << built, routine, given, args, k, acc >>
GivesUp == /\ pc = "compiled" /\ k < Len(args)
           /\ pc' = IF Uncaught THEN "failed" ELSE "python"
           /\ acc' = IF KeepsPartial THEN acc ELSE 0
           /\ UNCHANGED << built, routine, given, args, k, answer >>
Python == /\ pc = "python"
          /\ answer' = acc + Total(args) /\ pc' = "done"
          /\ UNCHANGED << built, routine, given, args, k, acc >>
Ended == pc \in {"done", "failed"} /\ UNCHANGED vars
Next == Choose \/ Compiled \/ CompiledEnds \/ GivesUp \/ Python \/ Ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SameAnswer == pc = "done" => answer = Total(given)
Answered == pc # "failed"
Untouched == pc = "done" => args = given
Ends == <>(pc \in {"done", "failed"})
=============================================================================
