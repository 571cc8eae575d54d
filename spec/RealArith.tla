----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  The operators below are uninterpreted in TLA+  *)
(* and are evaluated over IEEE-754 doubles by the Java module override      *)
(* java/vp/RealArith.java (a double is the opaque TLC value vp.RealValue;   *)
(* TLC integers are accepted wherever a number is expected).  Everything    *)
(* that is *specified* about MTfit is written in TLA+ on top of these.      *)
(* RealArithTest.tla checks the override against exact identities.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(x, y) == CHOOSE z : TRUE
RSub(x, y) == CHOOSE z : TRUE
RMul(x, y) == CHOOSE z : TRUE
RDiv(x, y) == CHOOSE z : TRUE
RLt(x, y) == CHOOSE b \in BOOLEAN : TRUE
RLe(x, y) == CHOOSE b \in BOOLEAN : TRUE
REq(x, y) == CHOOSE b \in BOOLEAN : TRUE     \* IEEE equality (NaN # NaN, -0 = 0)
RNeg(x) == CHOOSE z : TRUE
RAbs(x) == CHOOSE z : TRUE
RSqrt(x) == CHOOSE z : TRUE
RExp(x) == CHOOSE z : TRUE
RLn(x) == CHOOSE z : TRUE
RPow(x, y) == CHOOSE z : TRUE
RSin(x) == CHOOSE z : TRUE
RCos(x) == CHOOSE z : TRUE
RTan(x) == CHOOSE z : TRUE
RAsin(x) == CHOOSE z : TRUE
RAcos(x) == CHOOSE z : TRUE
RAtan2(y, x) == CHOOSE z : TRUE
RErf(x) == CHOOSE z : TRUE
RErfc(x) == CHOOSE z : TRUE
RFloor(x) == CHOOSE z : TRUE
RToInt(x) == CHOOSE z \in Int : TRUE         \* floor, as a TLA+ integer
RIsNaN(x) == CHOOSE b \in BOOLEAN : TRUE
RIsFinite(x) == CHOOSE b \in BOOLEAN : TRUE
IsNum(x) == CHOOSE b \in BOOLEAN : TRUE
R(str) == CHOOSE z : TRUE                    \* decimal literal
RInf == CHOOSE z : TRUE
RPi == CHOOSE z : TRUE
RSum(s) == CHOOSE z : TRUE                   \* compensated sum of a sequence (<<>> gives 0)
RProd(s) == CHOOSE z : TRUE
RDot(s, t) == CHOOSE z : TRUE
RMaxSeq(s) == CHOOSE z : TRUE                \* -infinity for <<>>
RMinSeq(s) == CHOOSE z : TRUE

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)

RNegInf == RNeg(RInf)
RSq(x) == x \otimes x
RMin2(x, y) == IF x \preceq y THEN x ELSE y
RMax2(x, y) == IF x \preceq y THEN y ELSE x
RSign(x) == IF x \prec 0 THEN -1 ELSE IF 0 \prec x THEN 1 ELSE 0
RSgn0(x) == IF x \prec 0 THEN -1 ELSE 1
RDeg(x) == x \otimes (R("180") \oslash RPi)
RRad(x) == x \otimes (RPi \oslash R("180"))
RClamp(x, lo, hi) == RMin2(RMax2(x, lo), hi)

\* x = y up to |x-y| <= atol + rtol*max(|x|,|y|); infinities of one sign are equal; NaN is near nothing
Near(x, y, atol, rtol) ==
  \/ REq(x, y)
  \/ /\ RIsFinite(x) /\ RIsFinite(y)
     /\ RAbs(x \ominus y) \preceq (atol \oplus (rtol \otimes RMax2(RAbs(x), RAbs(y))))

NearSeq(s, t, atol, rtol) ==
  Len(s) = Len(t) /\ \A k \in 1..Len(s) : Near(s[k], t[k], atol, rtol)

NearMat(s, t, atol, rtol) ==
  Len(s) = Len(t) /\ \A k \in 1..Len(s) : NearSeq(s[k], t[k], atol, rtol)

\* equality of angles modulo 2 pi
NearAngle(x, y, atol) ==
  LET d == (x \ominus y) \oslash (2 \otimes RPi)
      f == d \ominus RFloor(d \oplus R("0.5"))
  IN RAbs(f) \otimes (2 \otimes RPi) \preceq atol

AllFinite(s) == \A k \in 1..Len(s) : RIsFinite(s[k])
NoNaN(s) == \A k \in 1..Len(s) : ~RIsNaN(s[k])

\* log-domain sums
LnSumExp(s) ==
  LET m == RMaxSeq(s)
  IN IF Len(s) = 0 \/ REq(m, RNegInf) THEN RNegInf
     ELSE IF REq(m, RInf) THEN RInf
     ELSE m \oplus RLn(RSum([k \in 1..Len(s) |-> RExp(s[k] \ominus m)]))

\* error of a value with respect to a reference, as multiples of a tolerance, is not recorded: clauses are Boolean
=============================================================================
