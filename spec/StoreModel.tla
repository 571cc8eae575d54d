----------------------------- MODULE StoreModel -----------------------------
(***************************************************************************)
(* The growing buffer of the in-memory store, step by step, against the     *)
(* abstract store: columns are pre-allocated, `used` of them are filled,    *)
(* the buffer grows by INC columns until the batch fits, then the batch is  *)
(* written and its log-probabilities appended.  BUG selects a defect:       *)
(* "" none, "replace" growth allocates instead of extending, "once" growth  *)
(* happens at most once, "tried" only the kept candidates are counted,      *)
(* "unfiltered" columns are written before the zero filter.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS INC, MAXB, BUG
VARIABLES buf, used, lnp, n, hist, batch, pc, grown
vars == << buf, used, lnp, n, hist, batch, pc, grown >>
\* a candidate is <<batch number, index, non-zero?>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
Keep(b) == SelectSeq(b, LAMBDA c : c[3])
Abs(h) == Concat([k \in 1..Len(h) |-> Keep(h[k])])
RECURSIVE Sum(_)
Sum(h) == IF h = << >> THEN 0 ELSE Len(Head(h)) + Sum(Tail(h))
Blank == << 0, 0, FALSE >>
Fill(k) == [j \in 1..k |-> Blank]
Init == buf = Fill(INC) /\ used = 0 /\ lnp = << >> /\ n = 0 /\ hist = << >> /\ batch = << >> /\ pc = "idle" /\ grown = 0
Begin == /\ pc = "idle" /\ Len(hist) < MAXB
         /\ \E size \in 0..(2 * INC + 1) : \E nz \in [1..size -> BOOLEAN] :
              batch' = [k \in 1..size |-> << Len(hist) + 1, k, nz[k] >>]
         /\ pc' = "count" /\ grown' = 0 /\ UNCHANGED << buf, used, lnp, n, hist >>
Count == /\ pc = "count"
         /\ n' = n + (IF BUG = "tried" THEN Len(Keep(batch)) ELSE Len(batch))
         /\ hist' = Append(hist, batch)
         /\ batch' = (IF BUG = "unfiltered" THEN batch ELSE Keep(batch))
         /\ pc' = (IF batch' = << >> THEN "idle" ELSE "grow")
         /\ UNCHANGED << buf, used, lnp, grown >>
Grow == /\ pc = "grow"
        /\ IF Len(buf) - used > Len(batch) \/ (BUG = "once" /\ grown = 1)
           THEN pc' = "write" /\ UNCHANGED << buf, grown >>
           ELSE buf' = (IF BUG = "replace" THEN Fill(Len(buf) + INC) ELSE buf \o Fill(INC)) /\ grown' = 1 /\ pc' = pc
        /\ UNCHANGED << used, lnp, n, hist, batch >>
Write == /\ pc = "write"
         /\ buf' = [j \in 1..Len(buf) |-> IF j > used /\ j <= used + Len(batch) THEN batch[j - used] ELSE buf[j]]
         /\ used' = used + Len(batch)
         /\ lnp' = lnp \o Keep(batch)
         /\ pc' = "idle" /\ batch' = << >> /\ UNCHANGED << n, hist, grown >>
Done == pc = "idle" /\ Len(hist) = MAXB /\ UNCHANGED vars
Next == Begin \/ Count \/ Grow \/ Write \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Count \/ Grow \/ Write)
Idle == pc = "idle"
\* refinement: what the buffer holds is the abstract store
Refines == Idle => /\ used <= Len(buf)
                   /\ used <= Len(buf) => SubSeq(buf, 1, used) = Abs(hist)
                   /\ lnp = Abs(hist)
CountsAll == Idle => n = Sum(hist)
NothingBeyond == \A j \in (used + 1)..Len(buf) : buf[j] = Blank
Terminates == (pc # "idle") ~> (pc = "idle")
=============================================================================
