-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The posterior sample as an abstract data type: the state is the sequence *)
(* of non-zero candidates of the batches appended so far, each with its     *)
(* log-probability (rows: one per location sample while not marginalised)   *)
(* and its scale factor, and the number of candidates tried.                *)
(* A batch b has b.cols (candidate identities), b.lnp (rows of log-         *)
(* probabilities over the candidates), b.n (candidates tried) and b.sf      *)
(* (scale-factor identities, << >> when there are none).                    *)
(***************************************************************************)
EXTENDS LogDomain
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Total(_)
Total(ns) == IF ns = << >> THEN 0 ELSE Head(ns) + Total(Tail(ns))

\* a candidate is kept when its probability, summed over the rows, is not zero
Likely(b, k) == \E r \in 1..Len(b.lnp) : ~REq(b.lnp[r][k], RNegInf)
KeptIdx(b) == SelectSeq([k \in 1..Len(b.cols) |-> k], LAMBDA k : Likely(b, k))
Pick(s, idx) == [j \in 1..Len(idx) |-> s[idx[j]]]
KeptCols(b) == Pick(b.cols, KeptIdx(b))
KeptSf(b) == IF b.sf = << >> THEN << >> ELSE Pick(b.sf, KeptIdx(b))
KeptLn(b) == LET idx == KeptIdx(b) IN [j \in 1..Len(idx) |-> LnSumExp([r \in 1..Len(b.lnp) |-> b.lnp[r][idx[j]]])]

Stored(bs) == Concat([j \in 1..Len(bs) |-> KeptCols(bs[j])])
Sf(bs) == Concat([j \in 1..Len(bs) |-> KeptSf(bs[j])])
Ln(bs) == Concat([j \in 1..Len(bs) |-> KeptLn(bs[j])])
Tried(bs) == Total([j \in 1..Len(bs) |-> bs[j].n])

\* probability of a stored value in the output, unit total when normalised
OutLn(l, total, normalise) == IF normalise THEN l \ominus total ELSE l
\* how far below the maximum a value may be before it is discarded
Floor(lmax, discard, n) == lmax \ominus RLn(discard \otimes n)
=============================================================================
