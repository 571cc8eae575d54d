--------------------------- MODULE PosteriorModel ---------------------------
(***************************************************************************)
(* How the forward task computes a posterior, as a state machine over exact *)
(* integers: a batch of candidates, a running product per (location sample, *)
(* candidate) that each data type multiplies, then the location weights,    *)
(* then the sum over location samples, then the zero filter.  Checked for   *)
(* every small table of likelihoods: the value attached to a candidate is   *)
(* the weighted sum of products of its own likelihoods, whatever the batch. *)
(* SHORTCUT models skipping the weights when their mean is one; EARLY       *)
(* models giving up after the polarity term of the first candidate is zero. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS SHORTCUT, EARLY
Types == << "pol", "ratio" >>
L == << {0, 1}, {0, 2} >>
K == 2
VARIABLES lik, w, batch, marg, keep, acc, t, pc, rows, names
vars == << lik, w, batch, marg, keep, acc, t, pc, rows, names >>
\* candidates 1 and 2: lik[type][candidate][sample]
Init == /\ lik \in {<< p, q >> : p \in [1..2 -> [1..K -> L[1]]], q \in [1..2 -> [1..K -> L[2]]]}
        /\ w \in {<<1, 1>>, <<1, 3>>, <<2, 2>>}
        /\ batch \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
        /\ marg \in BOOLEAN /\ keep \in BOOLEAN
        /\ acc = [c \in 1..Len(batch) |-> [k \in 1..K |-> 1]]
        /\ t = 1 /\ pc = "types" /\ rows = << >> /\ names = << >>
Term == /\ pc = "types" /\ t <= 2
        /\ acc' = [c \in 1..Len(batch) |-> [k \in 1..K |-> acc[c][k] * lik[t][batch[c]][k]]]
        /\ t' = t + 1
        /\ pc' = (IF t = 2 \/ (EARLY /\ \A k \in 1..K : lik[1][batch[1]][k] = 0) THEN "weights" ELSE "types")
        /\ UNCHANGED << lik, w, batch, marg, keep, rows, names >>
\* the mean of the weights <<1,3>>, <<2,2>> is 2, of <<1,1>> one: the model scales so that "mean two" is the shortcut
Weights == /\ pc = "weights"
           /\ acc' = (IF SHORTCUT /\ w[1] + w[2] = 4 THEN acc ELSE [c \in 1..Len(batch) |-> [k \in 1..K |-> acc[c][k] * w[k]]])
           /\ pc' = "sum" /\ UNCHANGED << lik, w, batch, marg, keep, t, rows, names >>
Out(c) == IF marg THEN << acc[c][1] + acc[c][2] >> ELSE acc[c]
Sum == /\ pc = "sum"
       /\ LET all == [c \in 1..Len(batch) |-> Out(c)]
              nz(c) == \E k \in DOMAIN all[c] : all[c][k] # 0
              idx == SelectSeq([c \in 1..Len(batch) |-> c], LAMBDA c : keep \/ nz(c))
          IN /\ rows' = [j \in 1..Len(idx) |-> all[idx[j]]]
             /\ names' = [j \in 1..Len(idx) |-> batch[idx[j]]]
       /\ pc' = "done" /\ UNCHANGED << lik, w, batch, marg, keep, acc, t >>
Stop == pc = "done" /\ UNCHANGED vars
Next == Term \/ Weights \/ Sum \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Term \/ Weights \/ Sum)
Val(c, k) == w[k] * lik[1][c][k] * lik[2][c][k]
Expected(c) == IF marg THEN << Val(c, 1) + Val(c, 2) >> ELSE << Val(c, 1), Val(c, 2) >>
IsProduct == pc = "done" => \A j \in 1..Len(rows) : rows[j] = Expected(names[j])
FilterExact == pc = "done" => {names[j] : j \in 1..Len(names)} = {c \in {batch[j] : j \in 1..Len(batch)} : keep \/ \E k \in DOMAIN Expected(c) : Expected(c)[k] # 0}
Finishes == <>(pc = "done")
=============================================================================
