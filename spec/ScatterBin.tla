----------------------------- MODULE ScatterBin -----------------------------
(***************************************************************************)
(* Greedy binning of location samples: the first remaining sample takes in  *)
(* every later one all of whose station angles are within half a bin.       *)
(* Rule names a deviation ("right" has none).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Rule
VARIABLES inp, recs, ws, i, j, acc, last, out, home
vars == <<inp, recs, ws, i, j, acc, last, out, home>>
Half == 2
Stations == {"A", "B"}
\* a sample: the order its stations are listed in, one angle per listed position, a weight
Orders == {<<"A", "B">>, <<"B", "A">>}
Sample3 == [order : {<<"A", "B">>}, ang : [1..2 -> 0..3], w : 1..2]
SampleP == [order : Orders, ang : [1..2 -> {0, 1, 3}], w : {1, 5}]
Inputs == UNION {[1..n -> Sample3] : n \in 1..3} \cup UNION {[1..n -> SampleP] : n \in 1..2}
          \cup [1..4 -> [order : {<<"A", "B">>}, ang : {<<a, 1>> : a \in 0..4}, w : 1..2]]
At(s, name) == s.ang[CHOOSE p \in 1..2 : s.order[p] = name]
Abs(x) == IF x < 0 THEN -x ELSE x
Diff(a, b, name) == Abs(At(a, name) - At(b, name))
Close(a, b) == \A n \in Stations : Diff(a, b, n) < Half
\* what the deviating rules use instead
Same(a, b) == CASE Rule = "any-station" -> \E n \in Stations : Diff(a, b, n) < Half
                [] Rule = "boundary" -> \A n \in Stations : Diff(a, b, n) <= Half
                [] Rule = "positional" -> \A p \in 1..2 : Abs(a.ang[p] - b.ang[p]) < Half
                [] Rule = "signed" -> \A n \in Stations : At(a, n) - At(b, n) < Half
                [] Rule = "first-station" -> Diff(a, b, "A") < Half
                [] OTHER -> Close(a, b)
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Init == \E x \in Inputs : /\ inp = x /\ recs = [k \in 1..Len(x) |-> k] /\ ws = [k \in 1..Len(x) |-> x[k].w]
                          /\ i = 1 /\ j = 2 /\ acc = x[1].w /\ last = 1 /\ out = <<>> /\ home = [k \in 1..Len(x) |-> 0]
Merge == /\ i <= Len(recs) /\ j <= Len(recs)
         /\ Same(inp[IF Rule = "chained" THEN last ELSE recs[i]], inp[recs[j]])
         /\ acc' = acc + ws[j] /\ last' = recs[j] /\ home' = [home EXCEPT ![recs[j]] = recs[i]]
         /\ recs' = Drop(recs, j) /\ ws' = IF Rule = "weights-kept" THEN ws ELSE Drop(ws, j)
         /\ j' = IF Rule = "skip" THEN j + 1 ELSE j
         /\ UNCHANGED <<inp, i, out>>
Pass == /\ i <= Len(recs) /\ j <= Len(recs)
        /\ ~Same(inp[IF Rule = "chained" THEN last ELSE recs[i]], inp[recs[j]])
        /\ j' = j + 1 /\ UNCHANGED <<inp, recs, ws, i, acc, last, out, home>>
Keep == /\ i <= Len(recs) /\ j > Len(recs)
        /\ out' = Append(out, [rec |-> recs[i], w |-> acc]) /\ home' = [home EXCEPT ![recs[i]] = recs[i]]
        /\ i' = i + 1 /\ j' = i + 2
        /\ acc' = IF i + 1 <= Len(recs) THEN ws[i + 1] ELSE 0
        /\ last' = IF i + 1 <= Len(recs) THEN recs[i + 1] ELSE 0
        /\ UNCHANGED <<inp, recs, ws>>
Done == i > Len(recs) /\ UNCHANGED vars
Next == Merge \/ Pass \/ Keep \/ Done
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE Sum(s, n - 1) + s[n]
Ended == i > Len(recs)
Kept == {out[k].rec : k \in 1..Len(out)}
Mass == Ended => Sum([k \in 1..Len(out) |-> out[k].w], Len(out)) = Sum([k \in 1..Len(inp) |-> inp[k].w], Len(inp))
Originals == Cardinality(Kept) = Len(out) /\ Kept \subseteq 1..Len(inp)
OnlyNear == \A k \in 1..Len(inp) : home[k] # 0 => Close(inp[home[k]], inp[k])
EachOnce == Ended => \A k \in 1..Len(inp) : home[k] \in Kept
Weights == Ended => \A k \in 1..Len(out) : LET mine == [m \in 1..Len(inp) |-> IF home[m] = out[k].rec THEN inp[m].w ELSE 0] IN out[k].w = Sum(mine, Len(inp))
OnePerBin == Ended => \A a, b \in Kept : a # b => ~Close(inp[a], inp[b])
\* what can be judged from the answer alone: a bin holds at least the weight only it can hold, at most all it could hold
Candidates(m) == {k \in Kept : Close(inp[k], inp[m])}
Bounds == Ended => \A k \in 1..Len(out) :
            LET sure == [m \in 1..Len(inp) |-> IF m = out[k].rec \/ Candidates(m) = {out[k].rec} THEN inp[m].w ELSE 0]
                atmost == [m \in 1..Len(inp) |-> IF out[k].rec \in Candidates(m) THEN inp[m].w ELSE 0]
            IN Sum(sure, Len(inp)) <= out[k].w /\ out[k].w <= Sum(atmost, Len(inp))
=============================================================================
