package itm;

import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Arithmetic primitives of module Real64 (see spec/Real64.tla); nothing else. */
public final class Real64Overrides implements ITLCOverrides {
  private static final String M = "Real64";
  private static final ConcurrentHashMap<String, Value> LITERALS = new ConcurrentHashMap<>();

  @Override
  @SuppressWarnings("rawtypes")
  public Class[] get() {
    return new Class[] {Real64Overrides.class};
  }

  private static double d(final Value v) {
    final TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    final long hi = ((IntValue) t.elems[0]).val;
    final long lo = ((IntValue) t.elems[1]).val & 0xFFFFFFFFL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }

  private static Value v(final double x) {
    // +0.0 and -0.0 are one value; NaN is canonical.
    final long bits = Double.doubleToLongBits(x == 0.0 ? 0.0 : x);
    return new TupleValue(
        new Value[] {IntValue.gen((int) (bits >> 32)), IntValue.gen((int) bits)});
  }

  private static Value b(final boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static Value integer(final double x) {
    if (!(x >= Integer.MIN_VALUE && x <= Integer.MAX_VALUE)) {
      // Outside TLC's integers (or NaN): saturate, the model only compares such values to
      // small bounds.
      return IntValue.gen(x > 0 ? Integer.MAX_VALUE : Integer.MIN_VALUE + 1);
    }
    return IntValue.gen((int) x);
  }

  @TLAPlusOperator(identifier = "R", module = M, warn = false)
  public static Value r(final StringValue s) {
    return LITERALS.computeIfAbsent(s.val.toString(), k -> v(Double.parseDouble(k)));
  }

  @TLAPlusOperator(identifier = "RI", module = M, warn = false)
  public static Value ri(final IntValue i) { return v(i.val); }

  @TLAPlusOperator(identifier = "RAdd", module = M, warn = false)
  public static Value add(final Value x, final Value y) { return v(d(x) + d(y)); }

  @TLAPlusOperator(identifier = "RSub", module = M, warn = false)
  public static Value sub(final Value x, final Value y) { return v(d(x) - d(y)); }

  @TLAPlusOperator(identifier = "RMul", module = M, warn = false)
  public static Value mul(final Value x, final Value y) { return v(d(x) * d(y)); }

  @TLAPlusOperator(identifier = "RDiv", module = M, warn = false)
  public static Value div(final Value x, final Value y) { return v(d(x) / d(y)); }

  @TLAPlusOperator(identifier = "RPow", module = M, warn = false)
  public static Value pow(final Value x, final Value y) { return v(StrictMath.pow(d(x), d(y))); }

  @TLAPlusOperator(identifier = "RLt", module = M, warn = false)
  public static Value lt(final Value x, final Value y) { return b(d(x) < d(y)); }

  @TLAPlusOperator(identifier = "RLe", module = M, warn = false)
  public static Value le(final Value x, final Value y) { return b(d(x) <= d(y)); }

  @TLAPlusOperator(identifier = "RNeg", module = M, warn = false)
  public static Value neg(final Value x) { return v(-d(x)); }

  @TLAPlusOperator(identifier = "RAbs", module = M, warn = false)
  public static Value abs(final Value x) { return v(Math.abs(d(x))); }

  @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false)
  public static Value sqrt(final Value x) { return v(Math.sqrt(d(x))); }

  @TLAPlusOperator(identifier = "RExp", module = M, warn = false)
  public static Value exp(final Value x) { return v(StrictMath.exp(d(x))); }

  @TLAPlusOperator(identifier = "RLn", module = M, warn = false)
  public static Value ln(final Value x) { return v(StrictMath.log(d(x))); }

  @TLAPlusOperator(identifier = "RSin", module = M, warn = false)
  public static Value sin(final Value x) { return v(StrictMath.sin(d(x))); }

  @TLAPlusOperator(identifier = "RAtan2", module = M, warn = false)
  public static Value atan2(final Value y, final Value x) { return v(StrictMath.atan2(d(y), d(x))); }

  @TLAPlusOperator(identifier = "RCos", module = M, warn = false)
  public static Value cos(final Value x) { return v(StrictMath.cos(d(x))); }

  @TLAPlusOperator(identifier = "RFloor", module = M, warn = false)
  public static Value floor(final Value x) { return integer(Math.floor(d(x))); }

  @TLAPlusOperator(identifier = "RTrunc", module = M, warn = false)
  public static Value trunc(final Value x) {
    final double y = d(x);
    return integer(y < 0 ? Math.ceil(y) : Math.floor(y));
  }

  @TLAPlusOperator(identifier = "RFinite", module = M, warn = false)
  public static Value finite(final Value x) { return b(Double.isFinite(d(x))); }

  @TLAPlusOperator(identifier = "RStr", module = M, warn = false)
  public static Value str(final Value x) { return new StringValue(Double.toString(d(x))); }

  /** Upper normal tail: Taylor series of Phi below |x| = 2.5, continued fraction above. */
  @TLAPlusOperator(identifier = "RNormQ", module = M, warn = false)
  public static Value normq(final Value x) {
    final double z = d(x);
    final double a = Math.abs(z);
    final double phi = StrictMath.exp(-0.5 * a * a) / StrictMath.sqrt(2 * StrictMath.PI);
    final double q;
    if (a < 2.5) {
      double term = a;
      double sum = a;
      for (int k = 1; k < 200; k++) {
        term *= a * a / (2 * k + 1);
        sum += term;
      }
      q = 0.5 - phi * sum;
    } else {
      double f = 0;
      for (int k = 400; k >= 1; k--) {
        f = k / (a + f);
      }
      q = phi / (a + f);
    }
    return v(z < 0 ? 1 - q : q);
  }

  @TLAPlusOperator(identifier = "RSortDown", module = M, warn = false)
  public static Value sortDown(final Value s) {
    final TupleValue t = (TupleValue) s.toTuple();
    final double[] a = new double[t.elems.length];
    for (int i = 0; i < a.length; i++) a[i] = -d(t.elems[i]);
    java.util.Arrays.sort(a);
    final Value[] out = new Value[a.length];
    for (int i = 0; i < a.length; i++) out[i] = v(-a[i]);
    return new TupleValue(out);
  }
}
