import tlc2.value.impl.*;
import util.UniqueString;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;

/**
 * TLC evaluation of module Float64: IEEE-754 binary64 arithmetic on values represented as the pair
 * <<hi, lo>> of the two 32-bit halves of the bit pattern (the form in which traces record them).
 * Same mechanism TLC itself uses for Naturals, Sequences and FiniteSets.
 */
public class Float64 {
  static double d(Value v) {
    final Value[] e;
    if (v instanceof TupleValue) e = ((TupleValue) v).elems;
    else e = ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
  }
  static Value f(double x) {
    final long b = Double.doubleToLongBits(x); // NaN is canonical
    return new TupleValue(new Value[] { IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }

  private static final ConcurrentHashMap<UniqueString, Value> LIT = new ConcurrentHashMap<>();
  public static Value R(Value s) {
    return LIT.computeIfAbsent(((StringValue) s).val, u -> f(Double.parseDouble(u.toString())));
  }
  public static Value FInt(Value n) { return f(i(n)); }
  /** digits (a sequence of 0..9) times ten to the power exp, correctly rounded, negated if neg. */
  public static Value FDec(Value neg, Value digits, Value exp) {
    final Value[] e = ((TupleValue) digits.toTuple()).elems;
    final StringBuilder sb = new StringBuilder("0");
    for (Value v : e) sb.append((char) ('0' + i(v)));
    double x = new BigDecimal(new BigInteger(sb.toString()), -i(exp)).doubleValue();
    return f(((BoolValue) neg).val ? -x : x);
  }
  public static Value FAdd(Value a, Value c) { return f(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return f(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return f(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return f(d(a) / d(c)); }
  public static Value FMod(Value a, Value c) { return f(d(a) % d(c)); }
  public static Value FNeg(Value a) { return f(-d(a)); }
  public static Value FAbs(Value a) { return f(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return f(Math.sqrt(d(a))); }
  public static Value FSin(Value a) { return f(StrictMath.sin(d(a))); }
  public static Value FCos(Value a) { return f(StrictMath.cos(d(a))); }
  public static Value FAsin(Value a) { return f(StrictMath.asin(d(a))); }
  public static Value FAtan2(Value y, Value x) { return f(StrictMath.atan2(d(y), d(x))); }
  public static Value FPow(Value a, Value c) { return f(StrictMath.pow(d(a), d(c))); }
  public static Value FFloor(Value a) { return f(Math.floor(d(a))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FFinite(Value a) { final double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  /** Floor as an integer; only used where the value is known to be small. */
  public static Value FToInt(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value FClose(Value a, Value c, Value tol) { return b(Math.abs(d(a) - d(c)) <= d(tol)); }
  public static Value FShow(Value a) { return new StringValue(Double.toString(d(a))); }
}
