package vp;
import tlc2.overrides.*; import tlc2.value.impl.*; import tlc2.tool.*; import tlc2.tool.impl.Tool; import tlc2.util.Context;
import tlc2.tool.coverage.CostModel; import tla2sany.semantic.*; import util.UniqueString;
import java.util.*; import java.io.*; import java.nio.file.*; import java.nio.charset.StandardCharsets;
/** JSON traces with reals; total clause evaluation; counters.  See spec/TraceIO.tla. */
public class TraceIO {
  static final String M = "TraceIO";
  static final Map<String,Long> count = new TreeMap<>();
  static final Map<String,Value> cache = new HashMap<>();
  @TLAPlusOperator(identifier="NdJsonLoad",module=M,warn=false) public static synchronized Value load(Value p) throws IOException {
    String path=((StringValue)p).val.toString();
    Value c=cache.get(path); if (c!=null) return c;
    List<Value> out=new ArrayList<>();
    try (BufferedReader in=Files.newBufferedReader(Paths.get(path), StandardCharsets.UTF_8)) {
      String l; while ((l=in.readLine())!=null) if (!l.trim().isEmpty()) out.add(new P(l).top());
    }
    Value v=new TupleValue(out.toArray(new Value[0])); cache.put(path,v); return v;
  }
  @TLAPlusOperator(identifier="NdJsonAppend",module=M,warn=false) public static synchronized Value append(Value p, Value v) throws IOException {
    StringBuilder sb=new StringBuilder(); enc(v,sb); sb.append('\n');
    Files.write(Paths.get(((StringValue)p).val.toString()), sb.toString().getBytes(StandardCharsets.UTF_8), StandardOpenOption.CREATE, StandardOpenOption.APPEND);
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier="EnvVar",module=M,warn=false) public static Value env(Value p) {
    String s=System.getenv(((StringValue)p).val.toString()); return new StringValue(s==null?"":s);
  }
  @TLAPlusOperator(identifier="EnvInt",module=M,warn=false) public static Value envi(Value p, Value def) {
    String s=System.getenv(((StringValue)p).val.toString()); return s==null||s.isEmpty()?def:IntValue.gen(Integer.parseInt(s));
  }
  @TLAPlusOperator(identifier="Has",module=M,warn=false) public static Value has(Value rec, Value f) {
    Value r=rec.toRcd(); if (r==null) return BoolValue.ValFalse;
    UniqueString u=((StringValue)f).val; for (UniqueString n : ((RecordValue)r).names) if (n.equals(u)) return BoolValue.ValTrue; return BoolValue.ValFalse;
  }
  @TLAPlusOperator(identifier="ClauseCounts",module=M,warn=false) public static synchronized Value counts(Value k) {
    StringBuilder sb=new StringBuilder("{"); String sep="";
    for (Map.Entry<String,Long> e : count.entrySet()) { sb.append(sep).append('"').append(e.getKey()).append("\":").append(e.getValue()); sep=","; }
    return new StringValue(sb.append('}').toString());
  }
  static synchronized void bump(String k) { count.merge(k,1L,Long::sum); }
  /** CK(name, e): {} when e evaluates to TRUE, {name} otherwise; an evaluation error is a failure too. */
  @Evaluation(definition="CK",module=M,warn=false,silent=true)
  public static Value ck(Tool tool, ExprOrOpArgNode[] a, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
    Value nm=tool.eval(a[0],c,s0,s1,control,cm);
    String name=((StringValue)nm).val.toString();
    bump(name);
    boolean ok=false; String note="";
    try { Value v=tool.eval(a[1],c,s0,s1,control,cm); ok = v instanceof BoolValue && ((BoolValue)v).val; if (!(v instanceof BoolValue)) note=" (not a boolean)"; }
    catch (RuntimeException|StackOverflowError e) { note=" (evaluation: "+clean(e)+")"; }
    if (ok) return new SetEnumValue();
    return new SetEnumValue(new Value[]{new StringValue(name+note)}, true);
  }
  /** Guard(e): value of the Boolean e, FALSE when it cannot be evaluated. */
  @Evaluation(definition="Guard",module=M,warn=false,silent=true)
  public static Value guard(Tool tool, ExprOrOpArgNode[] a, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
    try { Value v=tool.eval(a[0],c,s0,s1,control,cm); return v instanceof BoolValue ? v : BoolValue.ValFalse; }
    catch (RuntimeException|StackOverflowError e) { return BoolValue.ValFalse; }
  }
  static String clean(Throwable e) { String m=String.valueOf(e.getMessage()).replaceAll("[\\r\\n\"\\\\]+"," "); return m.length()>160?m.substring(0,160):m; }
  static void enc(Value v, StringBuilder sb) {
    if (v instanceof RealValue) { double x=((RealValue)v).v; sb.append(Double.isNaN(x)?"NaN":Double.isInfinite(x)?(x>0?"Infinity":"-Infinity"):Double.toString(x)); return; }
    if (v instanceof IntValue) { sb.append(((IntValue)v).val); return; }
    if (v instanceof BoolValue) { sb.append(((BoolValue)v).val); return; }
    if (v instanceof StringValue) { str(((StringValue)v).val.toString(),sb); return; }
    if (v instanceof ModelValue) { str(v.toString(),sb); return; }
    if (v instanceof RecordValue) { RecordValue r=(RecordValue)v; sb.append('{'); for (int i=0;i<r.names.length;i++) { if(i>0)sb.append(','); str(r.names[i].toString(),sb); sb.append(':'); enc(r.values[i],sb);} sb.append('}'); return; }
    Value t=v.toTuple(); 
    if (t==null) { Value s=v.toSetEnum(); if (s!=null) { s.normalize(); ValueVec e=((SetEnumValue)s).elems; sb.append('['); for(int i=0;i<e.size();i++){ if(i>0)sb.append(','); enc(e.elementAt(i),sb);} sb.append(']'); return; }
      Value f=v.toFcnRcd(); if (f instanceof FcnRcdValue) { FcnRcdValue q=(FcnRcdValue)f; q.normalize(); Value[] dom=q.getDomainAsValues(); sb.append('{'); for (int i=0;i<dom.length;i++) { if(i>0)sb.append(','); Value k=dom[i]; str(k instanceof StringValue?((StringValue)k).val.toString():k.toString(),sb); sb.append(':'); enc(q.values[i],sb);} sb.append('}'); return; }
      throw new RuntimeException("cannot encode "+v); }
    Value[] e=((TupleValue)t).elems; sb.append('['); for(int i=0;i<e.length;i++){ if(i>0)sb.append(','); enc(e[i],sb);} sb.append(']');
  }
  static void str(String s, StringBuilder sb) { sb.append('"'); for (char c : s.toCharArray()) { if (c=='"'||c=='\\') sb.append('\\').append(c); else if (c<32) sb.append(String.format("\\u%04x",(int)c)); else sb.append(c);} sb.append('"'); }
  /** JSON reader: numbers with . e E or NaN/Infinity become RealValue, 32-bit integers IntValue, larger integers RealValue. */
  static final class P {
    final String s; int i=0; P(String s){this.s=s;}
    Value top(){ Value v=val(); ws(); if(i!=s.length()) throw new RuntimeException("trailing JSON"); return v; }
    void ws(){ while(i<s.length()&&Character.isWhitespace(s.charAt(i))) i++; }
    Value val(){ ws(); char c=s.charAt(i);
      if(c=='{'){ i++; List<UniqueString> n=new ArrayList<>(); List<Value> v=new ArrayList<>(); ws(); if(s.charAt(i)=='}'){i++; return new RecordValue(new UniqueString[0],new Value[0],false);} 
        while(true){ ws(); n.add(UniqueString.uniqueStringOf(str())); ws(); i++; v.add(val()); ws(); if(s.charAt(i++)=='}') break; }
        Value q=new RecordValue(n.toArray(new UniqueString[0]),v.toArray(new Value[0]),false); q.normalize(); return q; }
      if(c=='['){ i++; List<Value> v=new ArrayList<>(); ws(); if(s.charAt(i)==']'){i++; return new TupleValue(new Value[0]);} while(true){ v.add(val()); ws(); if(s.charAt(i++)==']') break; } return new TupleValue(v.toArray(new Value[0])); }
      if(c=='"') return new StringValue(str());
      if(s.startsWith("true",i)){i+=4;return BoolValue.ValTrue;} if(s.startsWith("false",i)){i+=5;return BoolValue.ValFalse;} if(s.startsWith("null",i)){i+=4;return new StringValue("null");}
      if(s.startsWith("NaN",i)){i+=3;return new RealValue(Double.NaN);} if(s.startsWith("Infinity",i)){i+=8;return new RealValue(Double.POSITIVE_INFINITY);} if(s.startsWith("-Infinity",i)){i+=9;return new RealValue(Double.NEGATIVE_INFINITY);}
      int j=i; while(i<s.length()&&"+-0123456789.eE".indexOf(s.charAt(i))>=0) i++; String t=s.substring(j,i);
      if(t.indexOf('.')<0&&t.indexOf('e')<0&&t.indexOf('E')<0){ long l=Long.parseLong(t); if(l>=Integer.MIN_VALUE&&l<=Integer.MAX_VALUE) return IntValue.gen((int)l); return new RealValue((double)l); }
      return new RealValue(Double.parseDouble(t)); }
    String str(){ i++; StringBuilder b=new StringBuilder(); while(s.charAt(i)!='"'){ char c=s.charAt(i++); if(c=='\\'){ c=s.charAt(i++); switch(c){case 'n':c='\n';break;case 't':c='\t';break;case 'r':c='\r';break;case 'b':c='\b';break;case 'f':c='\f';break;case 'u':c=(char)Integer.parseInt(s.substring(i,i+4),16);i+=4;break;} } b.append(c);} i++; return b.toString(); }
  }
}
