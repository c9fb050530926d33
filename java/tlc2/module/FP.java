package tlc2.module;

import tlc2.value.impl.*;

/** IEEE-double evaluation of the operators declared in spec/FP.tla. */
public class FP {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return Double.parseDouble(norm(((StringValue) v).val.toString()));
    throw new RuntimeException("FP: not a number: " + v);
  }
  private static String norm(String s) {
    switch (s) {
      case "nan": return "NaN";
      case "inf": return "Infinity";
      case "-inf": return "-Infinity";
      default: return s;
    }
  }
  private static Value v(double x) {
    if (x == Math.rint(x) && Math.abs(x) < 1e9) return IntValue.gen((int) x);
    if (Double.isNaN(x)) return new StringValue("nan");
    if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
    return new StringValue(Double.toString(x));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FAdd(Value a, Value b) { return v(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return v(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return v(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return v(d(a) / d(b)); }
  public static Value FNeg(Value a) { return v(-d(a)); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FLog(Value a) { return v(Math.log(d(a))); }
  public static Value FExp(Value a) { return v(Math.exp(d(a))); }
  public static Value FSin(Value a) { return v(Math.sin(d(a))); }
  public static Value FCos(Value a) { return v(Math.cos(d(a))); }
  public static Value FAsin(Value a) { return v(Math.asin(d(a))); }
  public static Value FAtan2(Value a, Value b) { return v(Math.atan2(d(a), d(b))); }
  public static Value FMin(Value a, Value b) { return v(Math.min(d(a), d(b))); }
  public static Value FMax(Value a, Value b) { return v(Math.max(d(a), d(b))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  private static int i(double x) {
    if (Double.isNaN(x)) return Integer.MIN_VALUE + 1;
    if (x > 2e9) return 2000000000;
    if (x < -2e9) return -2000000000;
    return (int) x;
  }
  public static Value FFloor(Value a) { return IntValue.gen(i(Math.floor(d(a)))); }
  public static Value FRound(Value a) { return IntValue.gen(i(Math.rint(d(a)))); }
  private static boolean close(double x, double y, double r, double t) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    return Math.abs(x - y) <= t + r * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value FClose(Value a, Value c, Value r, Value t) { return b(close(d(a), d(c), d(r), d(t))); }
  private static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("FP: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value FSum(Value s) {
    double x = 0, c = 0;                       // Kahan
    for (Value e : seq(s)) { double y = d(e) - c, t = x + y; c = (t - x) - y; x = t; }
    return v(x);
  }
  public static Value FAbsSum(Value s) {
    double x = 0;
    for (Value e : seq(s)) x += Math.abs(d(e));
    return v(x);
  }
  public static Value FMaxAbs(Value s) {
    double x = 0;
    for (Value e : seq(s)) { double y = Math.abs(d(e)); if (!Double.isNaN(y) && !Double.isInfinite(y)) x = Math.max(x, y); }
    return v(x);
  }
  public static Value FDot(Value s, Value u) {
    Value[] a = seq(s), c = seq(u);
    if (a.length != c.length) throw new RuntimeException("FDot: lengths differ");
    double x = 0;
    for (int i = 0; i < a.length; ++i) x += d(a[i]) * d(c[i]);
    return v(x);
  }
}
