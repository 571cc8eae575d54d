------------------------------ MODULE C11Trace ------------------------------
EXTENDS TraceSpec, Radiation
VARIABLE i
Rad(e, x) == IF e.radians THEN x ELSE x \otimes (RPi \oslash 180)
\* cosine of an angle of size x (degrees or radians) is determined to about 2^-52 x
AngTol(x) == R("2e-14") \oplus (R("4e-16") \otimes RAbs(x))

(* ---- coefficient rows ---- *)
Angles(e) ==
  CK("Accepted", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   CK("Shape", Len(e.rows) = Len(e.phases) /\ \A p \in 1..Len(e.rows) : Len(e.rows[p]) = Len(e.az)) \cup
   (IF ~(Len(e.rows) = Len(e.phases) /\ \A p \in 1..Len(e.rows) : Len(e.rows[p]) = Len(e.az)) THEN {} ELSE
    UNION {LET az == Rad(e, e.az[k]) t == Rad(e, e.toa[k]) tol == AngTol(az) row == e.rows[p][k]
           IN CK("Coefficients", NearV(row, Coef(e.phases[p], az, t), tol)) \cup
              CK("Amplitude", \A j \in 1..Len(e.ms) : Near(Dot(row, e.ms[j]), Amplitude(e.phases[p], az, t, e.ms[j]), 4 \otimes tol, 0)) \cup
              CK("Rotation", \A j \in 1..Len(e.ms) : Near(Dot(e.rot[p][k], Rotate(e.ms[j], e.w)), Dot(row, e.ms[j]), 8 \otimes (tol \oplus AngTol(e.w)), 0))
           : p \in 1..Len(e.rows), k \in 1..Len(e.az)}))

(* ---- observation tables: e.expect is what the dictionary says, e.rows what came back ---- *)
Tol == R("1e-12")
\* coefficients of station x of the data for location record r
CoefOf(x, q, r) == Coef(x.phases[q], RRad(x.az[r]), RRad(x.toa[r]))
Sgn(x) == IF x.fn = "polarity" THEN x.meas[1] ELSE 1
SameRow(x, y) ==
  /\ Len(y.coef) = Len(x.phases)
  /\ \A q \in 1..Len(x.phases) : Len(y.coef[q]) = Len(x.az) /\ \A r \in 1..Len(x.az) : NearV(y.coef[q][r], Scale(Sgn(x), CoefOf(x, q, r)), Tol)
  /\ CASE x.fn = "polarity" -> Near(y.err[1], x.err[1], 0, Tol) /\ Near(y.ipp, x.ipp, 0, Tol)
       [] x.fn = "polprob" -> Near(y.val[1], x.meas[1], 0, Tol) /\ Near(y.val[2], x.meas[2], 0, Tol) /\ Near(y.ipp, x.ipp, 0, Tol)
       [] x.fn = "ratio" -> /\ Near(y.val[1], RAbs(x.meas[1] \oslash x.meas[2]), 0, Tol)
                            /\ \A k \in 1..2 : Near(y.err[k], x.err[k] \oslash RAbs(x.meas[k]), 0, Tol)
       [] x.fn = "relative" -> Near(y.val[1], RAbs(x.meas[1]), 0, Tol) /\ Near(y.err[1], x.err[1] \oslash RAbs(x.meas[1]), 0, Tol) /\ y.name = x.name
\* a measurement identifies its observation (the driver makes them all different)
Matrix(e) ==
  CK("Accepted", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   CK("RowCount", Len(e.rows) = Len(e.expect) /\ e.lengths = TRUE) \cup
   CK("Aligned", \A j \in 1..Len(e.expect) : \E k \in 1..Len(e.rows) : SameRow(e.expect[j], e.rows[k])) \cup
   CK("NothingElse", \A k \in 1..Len(e.rows) : \E j \in 1..Len(e.expect) : SameRow(e.expect[j], e.rows[k])) \cup
   CK("InputsKept", e.kept = TRUE))
Failing(e) == CASE e.op = "angles" -> Angles(e) [] e.op = "matrix" -> Matrix(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
