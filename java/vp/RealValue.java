package vp;
import tlc2.value.*; import tlc2.value.impl.*; import util.Assert; import tlc2.util.FP64;
/** An IEEE-754 double as a TLC value.  Opaque to TLC's own operators: only RealArith.tla operates on it. */
public final class RealValue extends Value {
  public final double v;
  public RealValue(double v) { this.v = v; }
  public byte getKind() { return REALVALUE; }
  public int compareTo(Object o) {
    if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v);
    if (o instanceof IntValue) return Double.compare(v, ((IntValue) o).val);
    return getKind() - ((Value) o).getKind();
  }
  public boolean equals(Object o) { return o instanceof RealValue && Double.compare(v, ((RealValue) o).v) == 0; }
  public boolean member(Value e) { Assert.fail("\\in applied to a real"); return false; }
  public boolean isFinite() { return true; }
  public Value takeExcept(ValueExcept ex) { return ex.value; }
  public Value takeExcept(ValueExcept[] exs) { return exs[exs.length-1].value; }
  public int size() { return 1; }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public boolean assignable(Value val) { return equals(val); }
  public long fingerPrint(long fp) {
    long b = Double.doubleToLongBits(v);
    fp = FP64.Extend(fp, 'R'); fp = FP64.Extend(fp, (int) (b >>> 32)); return FP64.Extend(fp, (int) b);
  }
  public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(Double.toString(v)); }
}
