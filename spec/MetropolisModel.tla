-------------------------- MODULE MetropolisModel --------------------------
(***************************************************************************)
(* Detailed balance and stationarity of the acceptance rule, checked        *)
(* exactly (integers) on every small reversible-jump chain: a state is      *)
(* <<orientation, type>>, type 0 is the double couple and 1..2 are cells of *)
(* the lune.  Shifts inside the full model are asymmetric (rows are         *)
(* truncated kernels with different normalisers); a jump keeps the          *)
(* orientation and draws the cell from G.  BUG selects a wrong rule.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS BUG, LMAX
VARIABLE c
Ori == {1, 2}
Typ == {0, 1, 2}
S == Ori \X Typ
\* truncated kernels: numerators over the common denominator 4 (rows of an untruncated symmetric kernel, renormalised)
ShiftT == << << 3, 1 >>, << 2, 2 >> >>
ShiftO == << << 2, 2 >>, << 1, 3 >> >>
G == << 1, 3 >>                     \* balancing draw, over 4
P == << 3, 1 >>                     \* prior of the lune cells, over 4
Init == c \in [like : [S -> 0..LMAX], dc : {1, 2}, jump : {1, 2}]     \* dc: prior of the double couple over 3; jump: probability over 3
Next == UNCHANGED c
IsDC(x) == x[2] = 0
Pi(x) == c.like[x] * (IF IsDC(x) THEN 4 * c.dc ELSE P[x[2]] * (3 - c.dc))
\* proposal probability, over 3 * 4 * 4
Q(x, y) ==
  IF IsDC(x) = IsDC(y) THEN (3 - c.jump) * ShiftO[x[1]][y[1]] * (IF IsDC(x) THEN 4 ELSE ShiftT[x[2]][y[2]])
  ELSE IF x[1] # y[1] THEN 0
  ELSE IF IsDC(x) THEN c.jump * 4 * G[y[2]] ELSE c.jump * 16
\* the rule: acceptance is min(1, Num / Den)
Num(x, y) ==
  CASE BUG = "inverted" -> Pi(y) * Q(x, y)
    [] BUG = "symmetric" -> Pi(y)
    [] BUG = "nobalancing" /\ IsDC(x) # IsDC(y) -> Pi(y)
    [] BUG = "noprior" -> c.like[y] * Q(y, x)
    [] OTHER -> Pi(y) * Q(y, x)
Den(x, y) ==
  CASE BUG = "inverted" -> Pi(x) * Q(y, x)
    [] BUG = "symmetric" -> Pi(x)
    [] BUG = "nobalancing" /\ IsDC(x) # IsDC(y) -> Pi(x)
    [] BUG = "noprior" -> c.like[x] * Q(x, y)
    [] OTHER -> Pi(x) * Q(x, y)
Min(a, b) == IF a < b THEN a ELSE b
\* numerator and denominator of the acceptance; a zero-likelihood state is always left, never entered
AN(x, y) == IF c.like[y] = 0 THEN 0 ELSE IF c.like[x] = 0 THEN 1 ELSE Min(Num(x, y), Den(x, y))
AD(x, y) == IF c.like[y] = 0 \/ c.like[x] = 0 THEN 1 ELSE Den(x, y)
Balance == \A x, y \in S : (x # y /\ Q(x, y) > 0 /\ Q(y, x) > 0) =>
             Pi(x) * Q(x, y) * AN(x, y) * AD(y, x) = Pi(y) * Q(y, x) * AN(y, x) * AD(x, y)
Reversible == \A x, y \in S : Q(x, y) > 0 => Q(y, x) > 0
RowSum(x) == LET RECURSIVE Add(_)
                 Add(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN Q(x, t) + Add(T \ {t})
             IN Add(S)
Stochastic == \A x \in S : RowSum(x) = 48
ZeroNeverEntered == \A x, y \in S : c.like[y] = 0 => AN(x, y) = 0
ZeroAlwaysLeft == \A x, y \in S : (c.like[x] = 0 /\ c.like[y] > 0) => AN(x, y) = AD(x, y)
Spec == Init /\ [][Next]_c
=============================================================================
