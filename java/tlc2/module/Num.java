package tlc2.module;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** IEEE double arithmetic for Num.tla; a real is the pair <<hi, lo>> of its 64 bits. */
public class Num {
  private static double d(Value v) {
    Value[] e = v instanceof TupleValue ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems;
    long hi = ((IntValue) e[0]).val;
    long lo = ((IntValue) e[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }

  private static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }

  private static Value b(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value RAdd(Value a, Value b) { return v(d(a) + d(b)); }
  public static Value RSub(Value a, Value b) { return v(d(a) - d(b)); }
  public static Value RMul(Value a, Value b) { return v(d(a) * d(b)); }
  public static Value RDiv(Value a, Value b) { return v(d(a) / d(b)); }
  public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value RMax(Value a, Value b) { return v(Math.max(d(a), d(b))); }
  public static Value RSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value RSin(Value a) { return v(StrictMath.sin(d(a))); }
  public static Value RCos(Value a) { return v(StrictMath.cos(d(a))); }
  public static Value RInt(Value a) { return v(((IntValue) a).val); }
  public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value REq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value RFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  public static Value RInf() { return v(Double.POSITIVE_INFINITY); }
  public static Value RFloat(Value a) { return v((double) (float) d(a)); }
  public static Value RStr(Value a) { return new tlc2.value.impl.StringValue(Double.toString(d(a))); }
}
