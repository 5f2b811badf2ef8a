package tlc2.module;

import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

/** The operators of FixRing.tla, for speed; they mean exactly what is written there. */
public class FixRing {
  private static int i(Value v) { return ((IntValue) v).val; }

  private static Value exactly(long a, long b) {
    if (a % b != 0 || a / b != (int) (a / b)) throw new RuntimeException("inexact " + a + " / " + b);
    return IntValue.gen((int) (a / b));
  }

  public static Value FAdd(Value a, Value b) { return IntValue.gen(Math.addExact(i(a), i(b))); }
  public static Value FSub(Value a, Value b) { return IntValue.gen(Math.subtractExact(i(a), i(b))); }
  public static Value FMul(Value a, Value b) { return exactly((long) i(a) * i(b), 16); }
  public static Value FDiv(Value a, Value b) { return exactly((long) i(a) * 16, i(b)); }
}
