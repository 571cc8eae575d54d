--------------------------- MODULE RealArithTest ---------------------------
(* Self-test of the real-arithmetic override: identities with exact answers. *)
EXTENDS RealArith, TraceIO, TLC
VARIABLE n
E == R("1e-14")
Nums == {-7, -3, -1, 0, 1, 2, 5, 11}
Tests ==
     CK("int-add", \A x, y \in Nums : REq(x \oplus y, x + y))
\cup CK("int-sub", \A x, y \in Nums : REq(x \ominus y, x - y))
\cup CK("int-mul", \A x, y \in Nums : REq(x \otimes y, x * y))
\cup CK("div", \A x, y \in Nums : y # 0 => Near((x \oslash y) \otimes y, x, 0, E))
\cup CK("order", \A x, y \in Nums : (x \prec y) = (x < y) /\ (x \preceq y) = (x <= y))
\cup CK("expln", \A x \in Nums : x > 0 => Near(RExp(RLn(x)), x, 0, E))
\cup CK("sqrt", \A x \in Nums : x > 0 => Near(RSq(RSqrt(x)), x, 0, E))
\cup CK("trig", \A x \in Nums : Near(RSq(RSin(x)) \oplus RSq(RCos(x)), 1, 0, E))
\cup CK("atan2", \A x \in 1..6 : NearAngle(RAtan2(RSin(x), RCos(x)), x, E))
\cup CK("asin", Near(RAsin(1) \otimes 2, RPi, 0, E) /\ Near(RAcos(-1), RPi, 0, E))
\cup CK("erf-known", /\ Near(RErf(R("0.5")), R("0.5204998778130465"), 0, E)
                     /\ Near(RErf(1), R("0.8427007929497149"), 0, E)
                     /\ Near(RErf(2), R("0.9953222650189527"), 0, E)
                     /\ Near(RErf(3), R("0.9999779095030014"), 0, E)
                     /\ Near(RErfc(5), R("1.5374597944280349e-12"), 0, R("1e-13"))
                     /\ Near(RErfc(R("1.5")), R("0.033894853524689274"), 0, R("1e-13"))
                     /\ Near(RErfc(20), R("5.395865611607901e-176"), 0, R("1e-12")))
\cup CK("erf-odd", \A x \in Nums : REq(RErf(-x), RNeg(RErf(x))))
\cup CK("erf+erfc", \A k \in 0..60 : LET x == k \oslash 10 IN Near(RErf(x) \oplus RErfc(x), 1, E, 0))
\cup CK("erfc-integral",  \* d/dx erfc = -2/sqrt(pi) exp(-x^2): Simpson on [x, x+h]
        \A k \in 10..40 : LET x == k \oslash 20  h == R("0.01")
                              g(t) == RExp(RNeg(RSq(t))) \otimes (2 \oslash RSqrt(RPi))
                              s == (h \oslash 6) \otimes (g(x) \oplus (4 \otimes g(x \oplus (h \oslash 2))) \oplus g(x \oplus h))
                          IN Near(RErfc(x) \ominus RErfc(x \oplus h), s, R("1e-14"), R("1e-8")))
\cup CK("nan", RIsNaN(RInf \ominus RInf) /\ ~REq(RInf \ominus RInf, RInf \ominus RInf) /\ ~RIsFinite(RInf))
\cup CK("floor", RToInt(R("2.7")) = 2 /\ RToInt(R("-2.1")) = -3)
\cup CK("sum", REq(RSum(<<1, R("1e100"), 1, R("-1e100")>>), 2) /\ REq(RSum(<<>>), 0))
\cup CK("lse", /\ Near(LnSumExp(<<R("1000"), R("1000")>>), R("1000") \oplus RLn(2), 0, E)
               /\ REq(LnSumExp(<<RNegInf, RNegInf>>), RNegInf) /\ REq(LnSumExp(<<>>), RNegInf)
               /\ Near(LnSumExp(<<R("-1e5"), RNegInf>>), R("-1e5"), 0, E))
\cup CK("dot", REq(RDot(<<1, 2, 3>>, <<4, 5, 6>>), 32))
\cup CK("angle", NearAngle(R("0.1"), R("0.1") \oplus (2 \otimes RPi), E) /\ ~NearAngle(0, RPi, E))
\cup CK("has", Has([a |-> 1], "a") /\ ~Has([a |-> 1], "b"))
\cup CK("ck-total", CK("bad", <<>>[3]) # {} /\ CK("f", FALSE) = {"f"} /\ CK("t", TRUE) = {})
Init == n = 0
Next == n = 0 /\ n' = 1 /\ PrintT(<<"SELFTEST", Tests>>)
=============================================================================
