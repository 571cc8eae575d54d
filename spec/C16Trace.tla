------------------------------ MODULE C16Trace ------------------------------
(***************************************************************************)
(* A recorded history of the calls of a pool is a behaviour of Pool.tla     *)
(* (with any number of workers): the calls are replayed on the set of       *)
(* outstanding tasks.                                                       *)
(* e.kinds[t]: outcome of task t ("code", "none": it returns None, else     *)
(* identifiable); e.ops: calls in order: call, hung, id (submit), got (ids  *)
(* of the results), nones (results which are None), unknown (results of no  *)
(* task), same (all the results identical to what the tasks gave), jobs     *)
(* (the pool's count after the call), alive (workers alive after it).       *)
(***************************************************************************)
EXTENDS TraceSpec, Integers, Sequences, FiniteSets
VARIABLE i
Seqs(x) == {x[k] : k \in 1..Len(x)}
OfKind(e, S, k) == {t \in S : e.kinds[t] = k}
\* outstanding tasks with a result
Real(e, S) == {t \in S : e.kinds[t] # "code"}
RECURSIVE Some(_, _)
Some(S, n) == IF n = 0 \/ S = {} THEN {} ELSE LET x == CHOOSE y \in S : TRUE IN {x} \cup Some(S \ {x}, n - 1)
RECURSIVE Replay(_, _, _, _)
Replay(e, k, S, closed) ==
  IF k > Len(e.ops) THEN {}
  ELSE LET o == e.ops[k]
           got == Seqs(o.got)
           nn == OfKind(e, S, "none")
           RR == Real(e, S)
           taken == got \cup Some(nn, o.nones)
           T == CASE o.call = "submit" -> S \cup {o.id}
                  [] o.call = "result" -> (IF RR = {} THEN {} ELSE S \ taken)
                  [] o.call = "all" -> {}
                  [] OTHER -> S
           collect == o.call \in {"result", "all"}
       IN (IF o.hung THEN CK("Ends", FALSE)
           ELSE CK("Ends", TRUE)
                \cup CK("ExactlyOnce", collect => (/\ Cardinality(got) = Len(o.got) /\ got \subseteq (RR \ nn) /\ o.unknown = 0))
                \cup CK("Values", collect => o.same)
                \cup CK("OneResult", o.call = "result" => IF RR = {} THEN got = {} ELSE (Len(o.got) + o.nones = 1 /\ (o.nones = 1 => nn # {})))
                \cup CK("CollectsAll", o.call = "all" => (got = RR \ nn /\ o.nones = Cardinality(nn)))
                \cup CK("Count", o.error \/ (Cardinality(Real(e, T)) <= o.jobs /\ o.jobs <= Cardinality(T)))
                \cup CK("NoError", ~o.error)
                \cup CK("AllEnd", (o.call = "close" \/ closed) => o.alive = 0)
                \cup CK("Serving", closed \/ o.call = "close" \/ o.alive <= e.workers))
          \cup (IF o.hung THEN {} ELSE Replay(e, k + 1, T, closed \/ o.call = "close"))
Failing(e) == Replay(e, 1, {}, FALSE)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
