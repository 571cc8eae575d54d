--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* A pool of worker processes: a task queue, workers which take a task, run *)
(* it and send its outcome through a pipe of limited capacity (a feeder     *)
(* buffer per worker takes what does not fit), and a main program which     *)
(* submits tasks, collects one or all results, and closes the pool.  A task *)
(* has an outcome: a value, an exception, or a reserved status code, which  *)
(* is counted but not delivered.                                            *)
(* DIES: a worker ends after an exception.  WAITCODE: a collected status    *)
(* code makes the collection wait for another result.  NODRAIN: closing     *)
(* waits for the workers without reading their results. *)
(* the dead workers misses every second one.  LOSES: a worker which ends    *)
(* drops the exception.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, NT, CAP, DIES, WAITCODE, NODRAIN, LOSES
VARIABLES kind, queue, wk, buf, pipe, jobs, next, got, want, left, pc, calls
vars == << kind, queue, wk, buf, pipe, jobs, next, got, want, left, pc, calls >>
Pill == 0
Idle == << "idle", 0 >>
Ending == << "ending", 0 >>
Dead == << "dead", 0 >>
Init == /\ kind \in [1..NT -> {"value", "raise", "code"}]
        /\ queue = << >> /\ wk = [w \in 1..W |-> Idle] /\ buf = [w \in 1..W |-> << >>] /\ pipe = << >>
        /\ jobs = 0 /\ next = 1 /\ got = << >> /\ want = 0 /\ left = << >> /\ pc = "ready" /\ calls = 0
Clean(v) == [w \in 1..W |-> IF v[w] = Dead THEN Idle ELSE v[w]]
\* ---- the main program
Submit == /\ pc = "ready" /\ next <= NT
          /\ queue' = Append(queue, next) /\ next' = next + 1 /\ jobs' = jobs + 1 /\ wk' = Clean(wk)
          /\ UNCHANGED << kind, buf, pipe, got, want, left, pc, calls >>
\* want: how many results are collected before the call returns (all the outstanding ones: more than there can be)
Call(n) == /\ pc = "ready" /\ jobs > 0 /\ calls < 3 /\ calls' = calls + 1
           /\ want' = n /\ left' = << >> /\ pc' = "collect" /\ wk' = Clean(wk)
           /\ UNCHANGED << kind, queue, buf, pipe, jobs, next, got >>
Result == Call(1)
AllResults == Call(NT + 1)
Receive == /\ pc = "collect" /\ Len(pipe) > 0 /\ (jobs > 0 \/ WAITCODE)
           /\ LET t == Head(pipe) code == kind[t] = "code"
                  done == (jobs = 1 /\ ~(WAITCODE /\ code)) \/ (~code /\ Len(left) + 1 >= want)
              IN /\ jobs' = jobs - 1
                 /\ left' = (IF code THEN left ELSE Append(left, t))
                 /\ got' = got \o (IF code THEN << >> ELSE << t >>)
                 /\ pc' = (IF done THEN "ready" ELSE "collect")
           /\ pipe' = Tail(pipe) /\ wk' = Clean(wk) /\ UNCHANGED << kind, queue, buf, next, want, calls >>
CloseIt == /\ pc = "ready" /\ pc' = "closing" /\ queue' = queue \o [w \in 1..W |-> Pill] /\ wk' = Clean(wk)
           /\ UNCHANGED << kind, buf, pipe, jobs, next, got, want, left, calls >>
Drain == /\ pc = "closing" /\ ~NODRAIN /\ Len(pipe) > 0
         /\ pipe' = Tail(pipe) /\ jobs' = jobs - 1 /\ got' = got \o (IF kind[Head(pipe)] = "code" THEN << >> ELSE << Head(pipe) >>)
         /\ UNCHANGED << kind, queue, wk, buf, next, want, left, pc, calls >>
Closed == /\ pc = "closing" /\ \A w \in 1..W : wk[w] = Dead
          /\ NODRAIN \/ pipe = << >>
          /\ pc' = "closed" /\ UNCHANGED << kind, queue, wk, buf, pipe, jobs, next, got, want, left, calls >>
\* ---- the workers
Take(w) == /\ wk[w] = Idle /\ Len(queue) > 0
           /\ wk' = [wk EXCEPT ![w] = IF Head(queue) = Pill THEN Ending ELSE << "busy", Head(queue) >>]
           /\ queue' = Tail(queue) /\ UNCHANGED << kind, buf, pipe, jobs, next, got, want, left, pc, calls >>
Busy(w) == wk[w][1] = "busy"
Put(w) == /\ Busy(w)
          /\ LET t == wk[w][2] IN
             /\ buf' = [buf EXCEPT ![w] = IF LOSES /\ kind[t] = "raise" THEN @ ELSE Append(@, t)]
             /\ wk' = [wk EXCEPT ![w] = IF DIES /\ kind[t] = "raise" THEN Ending ELSE Idle]
          /\ UNCHANGED << kind, queue, pipe, jobs, next, got, want, left, pc, calls >>
Feed(w) == /\ Len(buf[w]) > 0 /\ Len(pipe) < CAP
           /\ pipe' = Append(pipe, Head(buf[w])) /\ buf' = [buf EXCEPT ![w] = Tail(@)]
           /\ UNCHANGED << kind, queue, wk, jobs, next, got, want, left, pc, calls >>
\* a process ends once its buffer is flushed
End(w) == /\ wk[w] = Ending /\ buf[w] = << >>
          /\ wk' = [wk EXCEPT ![w] = Dead] /\ UNCHANGED << kind, queue, buf, pipe, jobs, next, got, want, left, pc, calls >>
Stop == pc = "closed" /\ UNCHANGED vars
Main == Submit \/ Result \/ AllResults \/ Receive \/ CloseIt \/ Drain \/ Closed
Next == Main \/ (\E w \in 1..W : Take(w) \/ Put(w) \/ Feed(w) \/ End(w)) \/ Stop
Fair == WF_vars(Receive \/ Drain \/ Closed) /\ \A w \in 1..W : WF_vars(Take(w)) /\ WF_vars(Put(w)) /\ WF_vars(Feed(w)) /\ WF_vars(End(w))
Spec == Init /\ [][Next]_vars /\ Fair
\* ---- properties
In(t, s) == Cardinality({k \in 1..Len(s) : s[k] = t})
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Copies(t) == In(t, queue) + Cardinality({w \in 1..W : wk[w] = << "busy", t >>}) + SumTo([w \in 1..W |-> In(t, buf[w])], W) + In(t, pipe) + In(t, got)
\* no task's outcome is ever lost or doubled
ExactlyOnce == \A t \in 1..(next - 1) : IF kind[t] = "code" THEN Copies(t) <= 1 ELSE Copies(t) = 1
NothingElse == \A k \in 1..Len(got) : got[k] < next /\ kind[got[k]] # "code"
Counted == jobs = Cardinality({t \in 1..(next - 1) : Copies(t) - In(t, got) = 1})
\* the collection of everything leaves nothing outstanding
Everything == pc = "ready" /\ want = NT + 1 /\ jobs = 0 => \A t \in 1..(next - 1) : kind[t] = "code" \/ In(t, got) = 1
Exact == [][(pc = "collect" /\ pc' = "ready" /\ want = NT + 1) => jobs' = 0]_vars
CollectEnds == pc = "collect" ~> pc # "collect"
CloseEnds == pc = "closing" ~> pc = "closed"
NoneAlive == pc = "closed" => \A w \in 1..W : wk[w] = Dead
=============================================================================
