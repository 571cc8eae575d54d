package vp;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
/** Evaluation of the operators declared in spec/RealArith.tla over IEEE doubles. */
public class RealArith {
  static final String M = "RealArith";
  static double d(Value x) {
    if (x instanceof RealValue) return ((RealValue) x).v;
    if (x instanceof IntValue) return ((IntValue) x).val;
    throw new RuntimeException("not a number: " + x);
  }
  static Value r(double v) { return new RealValue(v); }
  static Value b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  @TLAPlusOperator(identifier="RAdd",module=M,warn=false) public static Value add(Value x, Value y) { return r(d(x)+d(y)); }
  @TLAPlusOperator(identifier="RSub",module=M,warn=false) public static Value sub(Value x, Value y) { return r(d(x)-d(y)); }
  @TLAPlusOperator(identifier="RMul",module=M,warn=false) public static Value mul(Value x, Value y) { return r(d(x)*d(y)); }
  @TLAPlusOperator(identifier="RDiv",module=M,warn=false) public static Value div(Value x, Value y) { return r(d(x)/d(y)); }
  @TLAPlusOperator(identifier="RLt",module=M,warn=false) public static Value lt(Value x, Value y) { return b(d(x)<d(y)); }
  @TLAPlusOperator(identifier="RLe",module=M,warn=false) public static Value le(Value x, Value y) { return b(d(x)<=d(y)); }
  @TLAPlusOperator(identifier="REq",module=M,warn=false) public static Value eq(Value x, Value y) { return b(d(x)==d(y)); }
  @TLAPlusOperator(identifier="RNeg",module=M,warn=false) public static Value neg(Value x) { return r(-d(x)); }
  @TLAPlusOperator(identifier="RAbs",module=M,warn=false) public static Value abs(Value x) { return r(Math.abs(d(x))); }
  @TLAPlusOperator(identifier="RSqrt",module=M,warn=false) public static Value sqrt(Value x) { return r(Math.sqrt(d(x))); }
  @TLAPlusOperator(identifier="RExp",module=M,warn=false) public static Value exp(Value x) { return r(Math.exp(d(x))); }
  @TLAPlusOperator(identifier="RLn",module=M,warn=false) public static Value ln(Value x) { return r(Math.log(d(x))); }
  @TLAPlusOperator(identifier="RPow",module=M,warn=false) public static Value pow(Value x, Value y) { return r(Math.pow(d(x), d(y))); }
  @TLAPlusOperator(identifier="RSin",module=M,warn=false) public static Value sin(Value x) { return r(Math.sin(d(x))); }
  @TLAPlusOperator(identifier="RCos",module=M,warn=false) public static Value cos(Value x) { return r(Math.cos(d(x))); }
  @TLAPlusOperator(identifier="RTan",module=M,warn=false) public static Value tan(Value x) { return r(Math.tan(d(x))); }
  @TLAPlusOperator(identifier="RAsin",module=M,warn=false) public static Value asin(Value x) { return r(Math.asin(d(x))); }
  @TLAPlusOperator(identifier="RAcos",module=M,warn=false) public static Value acos(Value x) { return r(Math.acos(d(x))); }
  @TLAPlusOperator(identifier="RAtan2",module=M,warn=false) public static Value atan2(Value y, Value x) { return r(Math.atan2(d(y), d(x))); }
  @TLAPlusOperator(identifier="RFloor",module=M,warn=false) public static Value floor(Value x) { return r(Math.floor(d(x))); }
  @TLAPlusOperator(identifier="RToInt",module=M,warn=false) public static Value toInt(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  @TLAPlusOperator(identifier="RErf",module=M,warn=false) public static Value erf(Value x) { return r(erf(d(x))); }
  @TLAPlusOperator(identifier="RErfc",module=M,warn=false) public static Value erfc(Value x) { return r(erfc(d(x))); }
  @TLAPlusOperator(identifier="RIsNaN",module=M,warn=false) public static Value isnan(Value x) { return b(Double.isNaN(d(x))); }
  @TLAPlusOperator(identifier="RIsFinite",module=M,warn=false) public static Value isfin(Value x) { double v=d(x); return b(!Double.isNaN(v)&&!Double.isInfinite(v)); }
  @TLAPlusOperator(identifier="IsNum",module=M,warn=false) public static Value isnum(Value x) { return b(x instanceof RealValue || x instanceof IntValue); }
  @TLAPlusOperator(identifier="R",module=M,warn=false) public static Value lit(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
  @TLAPlusOperator(identifier="RInf",module=M,warn=false) public static Value inf() { return r(Double.POSITIVE_INFINITY); }
  @TLAPlusOperator(identifier="RPi",module=M,warn=false) public static Value pi() { return r(Math.PI); }
  @TLAPlusOperator(identifier="RSum",module=M,warn=false) public static Value sum(Value s) {
    double a=0, c=0; for (Value x : seq(s)) { double y=d(x); double t=a+y;   /* Neumaier */
      if (!Double.isInfinite(t) && !Double.isNaN(t)) c += Math.abs(a)>=Math.abs(y) ? (a-t)+y : (y-t)+a; a=t; } return r(a+c); }
  @TLAPlusOperator(identifier="RProd",module=M,warn=false) public static Value prod(Value s) { double a=1; for (Value x : seq(s)) a*=d(x); return r(a); }
  @TLAPlusOperator(identifier="RMaxSeq",module=M,warn=false) public static Value maxs(Value s) { double a=Double.NEGATIVE_INFINITY; for (Value x : seq(s)) { double y=d(x); if (Double.isNaN(y)) return r(y); if (y>a) a=y; } return r(a); }
  @TLAPlusOperator(identifier="RMinSeq",module=M,warn=false) public static Value mins(Value s) { double a=Double.POSITIVE_INFINITY; for (Value x : seq(s)) { double y=d(x); if (Double.isNaN(y)) return r(y); if (y<a) a=y; } return r(a); }
  @TLAPlusOperator(identifier="RDot",module=M,warn=false) public static Value dot(Value s, Value t) {
    Value[] p=seq(s), q=seq(t); if (p.length!=q.length) throw new RuntimeException("RDot: lengths "+p.length+" "+q.length);
    double a=0; for (int i=0;i<p.length;i++) a+=d(p[i])*d(q[i]); return r(a); }

  /* erf/erfc: Maclaurin series for |x|<1.5..., Lentz continued fraction beyond. */
  public static double erf(double x) {
    if (Double.isNaN(x)) return x;
    double ax=Math.abs(x);
    if (ax<2.0) { double s=x, t=x, x2=x*x; for (int n=1;n<200;n++) { t*=-x2/n; double u=t/(2*n+1); s+=u; if (Math.abs(u)<1e-18*Math.abs(s)) break; } return 2/Math.sqrt(Math.PI)*s; }
    double v=1-erfcPos(ax); return x<0?-v:v;
  }
  public static double erfc(double x) {
    if (Double.isNaN(x)) return x;
    if (x<0) return 2-erfc(-x);
    if (x<1.0) return 1-erf(x);
    return erfcPos(x);
  }
  /** x >= 1: erfc(x) = exp(-x^2)/sqrt(pi) * 1/(x+ (1/2)/(x+ 1/(x+ (3/2)/(x+ ...)))) evaluated backwards. */
  static double erfcPos(double x) {
    if (Double.isInfinite(x)) return 0;
    int n = x<1.5?600:(x<3?240:80);
    double f=x; for (int k=n;k>=1;k--) f = x + (k/2.0)/f;
    return Math.exp(-x*x)/Math.sqrt(Math.PI)/f;
  }
}
