----------------------------- MODULE WidthModel -----------------------------
(***************************************************************************)
(* Width adaptation while learning, on a logarithmic scale: `w` is the      *)
(* width of a shift parameter and `b` of a balancing draw, in octaves below *)
(* the maximum (NoWidth stands for a width of zero).  One action per        *)
(* learning window, by the class of its acceptance rate.  After a window    *)
(* without (or with only) accepted proposals the previous width is taken    *)
(* back and changed by a modified factor.  BUG: "" none, "unbounded" the    *)
(* maximum is not looked at, "zero" a window without accepted proposals     *)
(* scales by its rate, "dropped" the balancing widths are not carried over. *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS BUG, DEPTH, WINDOWS
VARIABLES w, b, old, oldstep, n
NoWidth == -1000
Rates == {"none", "low", "ok", "high", "all"}
Init == w \in ((-DEPTH) + 2)..0 /\ b \in {(-DEPTH) + 2, 0} /\ old = NoWidth /\ oldstep = 0 /\ n = 0
Limit(v, x) == IF BUG = "unbounded" THEN x ELSE IF x > 0 \/ x <= (-DEPTH) THEN v ELSE x      \* out of (0, max]: left alone
Step(r) == CASE r = "low" -> {-2, -1, 0} [] r = "ok" -> {0} [] r = "high" -> {0, 1} [] OTHER -> {0}
Window(r) ==
  /\ n < WINDOWS /\ n' = n + 1
  /\ b' = (IF BUG = "dropped" THEN NoWidth ELSE b)
  /\ CASE r \in {"low", "ok", "high"} -> \E s \in Step(r) : w' = Limit(w, w + s) /\ old' = w /\ oldstep' = s
       [] r = "none" -> IF BUG = "zero" THEN w' = NoWidth /\ UNCHANGED << old, oldstep >>
                        ELSE IF old = NoWidth THEN w' = Limit(w, w - 3) /\ UNCHANGED << old, oldstep >>
                        ELSE w' = Limit(old, old + 2 * oldstep) /\ oldstep' = (IF oldstep < (-DEPTH) THEN oldstep ELSE 2 * oldstep) /\ old' = old
       [] r = "all" -> IF old = NoWidth THEN w' = Limit(w, w + 1) /\ UNCHANGED << old, oldstep >>
                       ELSE w' = Limit(old, old + (oldstep \div 2)) /\ oldstep' = oldstep \div 2 /\ old' = old
Done == n = WINDOWS /\ UNCHANGED << w, b, old, oldstep, n >>
Next == (\E r \in Rates : Window(r)) \/ Done
Spec == Init /\ [][Next]_<< w, b, old, oldstep, n >>
Positive == w # NoWidth /\ b # NoWidth
NotAboveMaximum == w <= 0
=============================================================================
