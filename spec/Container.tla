------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* The container of the result samples, as a state machine: the tensors,    *)
(* their probabilities (none, or one each) and the cached conversions are   *)
(* stored separately, and every operation - selecting samples, replacing    *)
(* samples, deriving parameters, collapsing repeated samples, selecting the *)
(* most probable ones - has to move all three.  `ref' is the list of        *)
(* samples as a user thinks of it, [mt, p] together.                        *)
(* Mode names a way of getting it wrong.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Tensors, Probs, MaxN, MaxSteps, Mode
VARIABLES mt, prob, conv, ref, hasp, steps, last
vars == << mt, prob, conv, ref, hasp, steps, last >>
f(m) == 10 * m + 3                       \* a conversion
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Take(s, sel) == [k \in 1..Len(sel) |-> s[sel[k]]]
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Init == \E n \in 1..MaxN : \E m \in [1..n -> Tensors] : \E p \in {<< >>} \cup [1..n -> Probs] :
           /\ mt = m /\ prob = p /\ conv = << >> /\ hasp = (p # << >>)
           /\ ref = [k \in 1..n |-> [mt |-> m[k], p |-> IF p = << >> THEN 0 ELSE p[k]]]
           /\ steps = 0 /\ last = [op |-> "init", from |-> << >>]
Did(o) == steps < MaxSteps /\ steps' = steps + 1 /\ last' = [op |-> o, from |-> ref]
Derive == Did("derive") /\ conv = << >> /\ mt # << >> /\ conv' = [k \in 1..Len(mt) |-> f(mt[k])] /\ UNCHANGED << mt, prob, ref, hasp >>
\* is there a probability for each sample?
Probable == prob # << >> /\ (Mode = "LosesSingle" => Len(prob) > 1)
Apply(sel, newprob) ==
  /\ mt' = Take(mt, sel)
  /\ prob' = newprob
  /\ conv' = IF conv = << >> THEN << >> ELSE IF Mode = "FirstValues" THEN SubSeq(conv, 1, IF Len(sel) < Len(conv) THEN Len(sel) ELSE Len(conv)) ELSE Take(conv, sel)
Select == /\ Did("select")
          /\ \E sel \in {s \in Seqs(1..Len(mt), MaxN) : s # << >>} :
               /\ Apply(sel, IF Probable THEN Take(prob, sel) ELSE << >>)
               /\ ref' = Take(ref, sel) /\ UNCHANGED hasp
Put == /\ Did("put") /\ ~hasp
       /\ \E k \in 1..Len(mt) : \E m \in Tensors :
            /\ mt' = [mt EXCEPT ![k] = m] /\ ref' = [ref EXCEPT ![k].mt = m]
            /\ conv' = IF Mode = "Stale" THEN conv ELSE << >>
       /\ UNCHANGED << prob, hasp >>
FirstOf(m) == CHOOSE k \in 1..Len(mt) : mt[k] = m /\ \A j \in 1..(k - 1) : mt[j] # m
LastOf(m) == CHOOSE k \in 1..Len(mt) : mt[k] = m /\ \A j \in (k + 1)..Len(mt) : mt[j] # m
Count(s, m) == Cardinality({k \in 1..Len(s) : s[k] = m})
\* the length of the run of equal samples that starts at k
Run(s, k) == CHOOSE n \in 1..Len(s) : (\A j \in k..(k + n - 1) : j <= Len(s) /\ s[j] = s[k]) /\ (k + n > Len(s) \/ s[k + n] # s[k])
Unique == /\ Did("unique")
          /\ LET us == SetToSortSeq(ToSet(mt), <)
                 sel == [k \in 1..Len(us) |-> FirstOf(us[k])]
                 counts == [k \in 1..Len(us) |-> IF Mode = "RunLength" THEN Run(mt, FirstOf(us[k])) ELSE Count(mt, us[k])]
             IN /\ Apply(IF Mode = "OtherIndex" THEN [k \in 1..Len(us) |-> k] ELSE sel, counts)
                /\ ref' = [k \in 1..Len(us) |-> [mt |-> us[k], p |-> Count([j \in 1..Len(ref) |-> ref[j].mt], us[k])]]
                /\ hasp' = TRUE
MaxP == CHOOSE p \in {prob[k] : k \in 1..Len(prob)} : \A k \in 1..Len(prob) : prob[k] <= p
Best == /\ Did("max") /\ Probable
        /\ LET all == SelectSeq([k \in 1..Len(prob) |-> k], LAMBDA k : prob[k] = MaxP)
               sel == IF Mode = "OneMaximum" THEN << all[1] >> ELSE all
           IN Apply(sel, Take(prob, sel))
        /\ LET top == CHOOSE p \in {ref[k].p : k \in 1..Len(ref)} : \A k \in 1..Len(ref) : ref[k].p <= p
           IN ref' = SelectSeq(ref, LAMBDA r : r.p = top)
        /\ UNCHANGED hasp
Stop == steps = MaxSteps /\ UNCHANGED vars
Next == Derive \/ Select \/ Put \/ Unique \/ Best \/ Stop
Spec == Init /\ [][Next]_vars
Tensor == mt = [k \in 1..Len(ref) |-> ref[k].mt]
Probability == prob = IF hasp THEN [k \in 1..Len(ref) |-> ref[k].p] ELSE << >>
Converted == conv = << >> \/ conv = [k \in 1..Len(ref) |-> f(ref[k].mt)]
\* a collapsed chain: every tensor once, counts adding up to the chain
Collapsed == last.op = "unique" => (\A a, b \in 1..Len(mt) : a # b => mt[a] # mt[b]) /\ Sum(prob) = Len(last.from) /\ {last.from[k].mt : k \in 1..Len(last.from)} = ToSet(mt)
Maximal == last.op = "max" => \A k \in 1..Len(ref) : \A j \in 1..Len(last.from) : last.from[j].p <= ref[k].p
=============================================================================
