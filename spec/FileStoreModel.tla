--------------------------- MODULE FileStoreModel ---------------------------
(***************************************************************************)
(* The file-backed store: an append copies the file to a working copy,      *)
(* writes the numbered section of the batch, the number of samples, the     *)
(* next section number and the number tried to the working copy one after   *)
(* the other, and copies it back.  The process may die at any step and be   *)
(* started again, reading the counters back; the batch in flight is lost    *)
(* (or was just completed).  Output reads the sections in order.            *)
(* BUG: "" none; "inplace" writes straight to the file (file_safe off);     *)
(* "alphabet" reads the sections in the alphabetical order of their names;  *)
(* "stale" starts from a working copy left by an earlier run.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MAXB, BUG
VARIABLES file, work, mem, pc, hist, crashes
vars == << file, work, mem, pc, hist, crashes >>
None == [sec |-> << >>, i |-> 1, n |-> 0, nz |-> 0, there |-> FALSE]
\* sections are a function from section number to batch number (0 none); every batch has one kept candidate and one tried
Empty(f) == [f EXCEPT !.sec = [k \in 1..(MAXB + 2) |-> 0]]
Stale == [sec |-> [k \in 1..(MAXB + 2) |-> IF k <= 2 THEN 99 ELSE 0], i |-> 3, n |-> 2, nz |-> 2, there |-> TRUE]
Init == /\ file = Empty(None) /\ work = (IF BUG = "stale" THEN Stale ELSE Empty(None)) /\ mem = [i |-> 1, n |-> 0, nz |-> 0]
        /\ pc = "idle" /\ hist = << >> /\ crashes = 0
Inplace == BUG = "inplace"
\* the new batch is number Len(hist) + 1; it joins the history when its append returns
Put(f, what) == CASE what = "section" -> [f EXCEPT !.sec[mem.i] = Len(hist) + 1, !.there = TRUE]
                  [] what = "nz" -> [f EXCEPT !.nz = mem.nz]
                  [] what = "i" -> [f EXCEPT !.i = mem.i]
                  [] what = "n" -> [f EXCEPT !.n = mem.n]
Copy == /\ pc = "idle" /\ Len(hist) < MAXB
        /\ work' = (IF Inplace THEN work ELSE IF file.there THEN file ELSE IF BUG = "stale" THEN work ELSE Empty(None))
        /\ mem' = [mem EXCEPT !.n = @ + 1] /\ pc' = "section" /\ UNCHANGED << file, hist, crashes >>
After == [section |-> "nz", nz |-> "i", i |-> "n", n |-> "back"]
WriteStep == /\ pc \in {"section", "nz", "i", "n"}
        /\ mem' = (IF pc = "section" THEN [mem EXCEPT !.nz = @ + 1] ELSE IF pc = "nz" THEN [mem EXCEPT !.i = @ + 1] ELSE mem)
        /\ file' = (IF Inplace THEN Put(file, pc) ELSE file)
        /\ work' = (IF Inplace THEN work ELSE Put(work, pc))
        /\ pc' = After[pc] /\ UNCHANGED << hist, crashes >>
Back == /\ pc = "back" /\ file' = (IF Inplace THEN file ELSE work) /\ hist' = Append(hist, Len(hist) + 1)
        /\ pc' = "idle" /\ UNCHANGED << work, mem, crashes >>
\* the process dies; the next one reads the counters of the file
Crash == /\ crashes < 2 /\ crashes' = crashes + 1
         /\ mem' = (IF file.there THEN [i |-> file.i, n |-> file.n, nz |-> file.nz] ELSE [i |-> 1, n |-> 0, nz |-> 0])
         /\ pc' = "idle" /\ UNCHANGED << file, work, hist >>
Done == pc = "idle" /\ Len(hist) = MAXB /\ UNCHANGED vars
Next == Copy \/ WriteStep \/ Back \/ Crash \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Copy \/ WriteStep \/ Back)
\* names sorted as text: 1, 10, 11, 2, ... (alphabet); here numbers above 2 come before 2
Order == IF BUG = "alphabet" /\ MAXB > 2 THEN <<1>> \o [k \in 1..(MAXB - 1) |-> k + 2] \o <<2>> ELSE [k \in 1..(MAXB + 2) |-> k]
Read == LET f == file.sec IN SelectSeq([k \in 1..Len(Order) |-> f[Order[k]]], LAMBDA b : b # 0)
Aligned == pc = "idle" => /\ Read = hist
                          /\ Len(hist) = file.nz \/ ~file.there
                          /\ Len(hist) = file.n \/ ~file.there
                          /\ mem.n = Len(hist) /\ mem.nz = Len(hist) /\ mem.i = Len(hist) + 1
Completes == <>(Len(hist) = MAXB)
=============================================================================
