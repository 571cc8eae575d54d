-------------------------------- MODULE Hyp --------------------------------
(***************************************************************************)
(* The NonLinLoc hypocentre file.  A line is [w, fm, az, toa]: its words,   *)
(* the 6th in lower case, and the 24th and 25th as numbers ("" if absent).  *)
(* Events end with END_NLLOC (or with the file); the lines between PHASE    *)
(* and END_PHASE are arrivals: station, phase (5th word), first motion.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Up == {"u", "c", "+", "p"}
Down == {"d", "-", "n"}
Pick(l) == [type |-> l.w[5] \o "Polarity", name |-> l.w[1], az |-> l.az, toa |-> l.toa, pol |-> IF l.fm \in Up THEN 1 ELSE -1]
IsPick(l) == Len(l.w) > 24 /\ l.fm \in (Up \cup Down)
HypStart == [events |-> <<>>, picks |-> <<>>, phase |-> FALSE, seen |-> FALSE]
HypLine(st, l) ==
  IF l.w = <<>> THEN st
  ELSE CASE l.w[1] = "PHASE" -> [st EXCEPT !.phase = TRUE, !.seen = TRUE]
         [] l.w[1] = "END_PHASE" -> [st EXCEPT !.phase = FALSE, !.seen = TRUE]
         [] l.w[1] = "END_NLLOC" -> [events |-> Append(st.events, st.picks), picks |-> <<>>, phase |-> FALSE, seen |-> FALSE]
         [] OTHER -> [st EXCEPT !.seen = TRUE, !.picks = IF st.phase /\ IsPick(l) THEN Append(st.picks, Pick(l)) ELSE st.picks]
RECURSIVE HypAll(_, _, _)
HypAll(ls, k, st) == IF k > Len(ls) THEN (IF st.seen THEN Append(st.events, st.picks) ELSE st.events) ELSE HypAll(ls, k + 1, HypLine(st, ls[k]))
\* the picks of every event which has any
HypParse(ls) == SelectSeq(HypAll(ls, 1, HypStart), LAMBDA p : p # <<>>)
=============================================================================
