----------------------------- MODULE AlignModel -----------------------------
(***************************************************************************)
(* Building an observation table from data types and location records, as a *)
(* state machine: types are taken in key order, the stations of the type    *)
(* that the location records list are selected, coefficients are read from  *)
(* every record by name, measurements from the data by name, rows are       *)
(* appended.  Checked for every order of stations and records: a row never  *)
(* mixes two stations, and each selected observation appears exactly once.  *)
(* PERRECORD = FALSE models reading every record with the order of the      *)
(* first one: Aligned then fails as soon as records differ.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Names, PERRECORD
VARIABLES lists, records, ipp, k, rows, ippcol, pc
vars == << lists, records, ipp, k, rows, ippcol, pc >>
Orders(S) == UNION {SetToSeqs(T) : T \in (SUBSET S) \ {{}}}
Full(S) == SetToSeqs(S)
Idx(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
\* measurement and coefficient values are tagged with what they belong to
Meas(t, n) == << "m", t, n >>
Ang(r, n) == << "a", r, n >>
Init == /\ lists \in [1..2 -> Orders(Names)]
        /\ records \in [1..2 -> Full(Names)] \cup [1..1 -> Full(Names)]
        /\ ipp \in [1..2 -> {"none", "given"}]
        /\ k = 1 /\ rows = << >> /\ ippcol = << >> /\ pc = "select"
Sel(t) == SetToSortSeq(Range(lists[t]) \cap Range(records[1]), LAMBDA x, y : x < y)
RowsOf(t) == [j \in 1..Len(Sel(t)) |->
  [meas |-> Meas(t, lists[t][Idx(lists[t], Sel(t)[j])]),
   coef |-> [r \in DOMAIN records |-> LET o == IF PERRECORD THEN records[r] ELSE records[1]
                                      IN Ang(r, records[r][Idx(o, Sel(t)[j])])]]]
IppOf(t) == [j \in 1..Len(Sel(t)) |-> IF ipp[t] = "given" THEN << t, Sel(t)[j] >> ELSE << >>]
Append2 == /\ pc = "select" /\ k <= 2
           /\ rows' = rows \o RowsOf(k)
           /\ ippcol' = ippcol \o IppOf(k)
           /\ k' = k + 1 /\ pc' = (IF k = 2 THEN "done" ELSE "select")
           /\ UNCHANGED << lists, records, ipp >>
Stop == pc = "done" /\ UNCHANGED vars
Next == Append2 \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Append2)
Aligned == \A j \in 1..Len(rows) : \A r \in DOMAIN rows[j].coef : rows[j].coef[r] = << "a", r, rows[j].meas[3] >>
SameLength == Len(ippcol) = Len(rows)
IppAligned == \A j \in 1..Len(rows) : ippcol[j] # << >> => ippcol[j] = << rows[j].meas[2], rows[j].meas[3] >>
Once == \A i, j \in 1..Len(rows) : i # j => rows[i].meas # rows[j].meas
Complete == pc = "done" => {rows[j].meas : j \in 1..Len(rows)} = UNION {{Meas(t, n) : n \in Range(lists[t]) \cap Range(records[1])} : t \in 1..2}
Finishes == <>(pc = "done")
=============================================================================
