------------------------------ MODULE LogDomain ------------------------------
(***************************************************************************)
(* Log-domain marginalisation and normalisation as functions of a table of  *)
(* log-values (a sequence of rows; a 1-D input is a single row).            *)
(***************************************************************************)
EXTENDS RealArith, TLC
Cols(t) == Len(t[1])
Column(t, k) == [r \in 1..Len(t) |-> t[r][k]]
\* the slices over which axis `ax` of the table is summed
Slices(t, ax) == IF ax = 0 THEN [k \in 1..Cols(t) |-> Column(t, k)] ELSE t
Flat(t) == [k \in 1..(Len(t) * Cols(t)) |-> t[((k-1) \div Cols(t)) + 1][((k-1) % Cols(t)) + 1]]
Marginal(t, ax) == LET sl == Slices(t, ax) IN [k \in 1..Len(sl) |-> LnSumExp(sl[k])]
LnTotal(t, dV) == LnSumExp(Flat(t)) \oplus RLn(dV)
Normalised(t, dV) == LET n == LnTotal(t, dV) IN IF REq(n, RNegInf) THEN t ELSE [r \in 1..Len(t) |-> [k \in 1..Cols(t) |-> t[r][k] \ominus n]]
\* rounding of sums/differences of log values: a few ulps of the largest magnitude involved, on top of eps * number of terms
Tol(v) == R("1e-12") \oplus (R("1.8e-15") \otimes v)
MaxAbs(s) == RMaxSeq([k \in 1..Len(s) |-> IF RIsFinite(s[k]) THEN RAbs(s[k]) ELSE 0])
SameLn(a, b, tol) == IF REq(b, RNegInf) THEN REq(a, RNegInf) ELSE Near(a, b, tol, 0)
=============================================================================
