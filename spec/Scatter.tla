------------------------------- MODULE Scatter -------------------------------
(***************************************************************************)
(* An angle-scatter file is a sequence of lines, a line a sequence of words.*)
(* Blocks are separated by blank lines (no words): a weight line (one word),*)
(* then one line per station: name, azimuth, take-off angle.  The last      *)
(* block needs no blank line after it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Positions(lines, n) == SelectSeq(TLCEval([k \in 1..Len(lines) |-> k]), LAMBDA k : Len(lines[k]) = n)
Stations(lines) == SelectSeq(lines, LAMBDA l : Len(l) = 3)
\* what a reader must return: one record per block, in file order
ScatParse(lines) ==
  LET p == TLCEval(Positions(lines, 1))
  IN [b \in 1..Len(p) |-> [w |-> lines[p[b]][1],
                           sta |-> TLCEval(Stations(SubSeq(lines, p[b] + 1, IF b < Len(p) THEN p[b + 1] - 1 ELSE Len(lines))))]]
\* a file this grammar covers: every weight line starts a block of at least one station, nothing but blanks between blocks
WellFormed(lines) ==
  /\ \A k \in 1..Len(lines) : Len(lines[k]) \in {0, 1, 3}
  /\ \A k \in 1..Len(lines) : Len(lines[k]) = 1 => (k = 1 \/ Len(lines[k - 1]) = 0) /\ k < Len(lines) /\ Len(lines[k + 1]) = 3
  /\ \A k \in 1..Len(lines) : Len(lines[k]) = 3 => k > 1 /\ Len(lines[k - 1]) # 0
\* what a writer must produce for records, up to the number of blank lines
ScatLines(recs) == [b \in 1..Len(recs) |-> << << recs[b].w >> >> \o recs[b].sta]

(***************************************************************************)
(* Reading line by line; Reader names a deviation ("right" has none)        *)
(***************************************************************************)
CONSTANT Reader
ReadStart == [recs |-> <<>>, w |-> "", sta |-> <<>>]
ReadFlush(st) == IF st.sta = <<>> THEN [st EXCEPT !.sta = <<>>]
            ELSE [recs |-> IF Reader = "newest-first" THEN << [w |-> st.w, sta |-> st.sta] >> \o st.recs ELSE Append(st.recs, [w |-> st.w, sta |-> st.sta]),
                  w |-> st.w, sta |-> IF Reader = "keeps-stations" THEN st.sta ELSE <<>>]
ReadLine(st, l) ==
  IF Len(l) = 0 THEN ReadFlush(st)
  ELSE IF Len(l) = 1 THEN IF Reader = "first-weight" /\ st.w # "" THEN st ELSE [st EXCEPT !.w = l[1]]
  ELSE IF Reader = "new-block-on-repeat" /\ \E k \in 1..Len(st.sta) : st.sta[k][1] = l[1] THEN [ReadFlush(st) EXCEPT !.sta = << l >>]
  ELSE [st EXCEPT !.sta = Append(@, l)]
ReadEnd(st) == IF Reader = "needs-blank" THEN st.recs ELSE ReadFlush(st).recs
=============================================================================
