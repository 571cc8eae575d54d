package vp;
public class Overrides implements tlc2.overrides.ITLCOverrides {
  public Class[] get() { return new Class[] { RealArith.class, TraceIO.class }; }
}
