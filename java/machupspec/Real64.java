package machupspec;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * The arithmetic primitives of module Real64: IEEE-754 doubles encoded as
 * <<hi, lo>>, the two 32-bit halves of the bit pattern (-0.0 is normalised
 * to 0.0). Only primitives live here; all algorithms are TLA+.
 */
public final class Real64 {
  static boolean isReal(Value v) {
    if (!(v instanceof TupleValue)) {
      if (v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue || v instanceof RecordValue)
        return false;
      v = (Value) v.toTuple();
      if (v == null) return false;
    }
    TupleValue t = (TupleValue) v;
    return t.elems.length == 2 && t.elems[0] instanceof IntValue && t.elems[1] instanceof IntValue;
  }
  /** The double a value stands for; anything that is not a number counts as NaN. */
  static double d(Value v) {
    if (!isReal(v)) return Double.NaN;
    if (!(v instanceof TupleValue)) v = (Value) v.toTuple();
    TupleValue t = (TupleValue) v;
    return Double.longBitsToDouble((((long) ((IntValue) t.elems[0]).val) << 32)
        | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    if (x == 0.0) x = 0.0;
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static int n(Value v) { return ((IntValue) v).val; }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "RAdd", module = "Real64", warn = false)
  public static Value add(Value a, Value b) { return v(d(a) + d(b)); }
  @TLAPlusOperator(identifier = "RSub", module = "Real64", warn = false)
  public static Value sub(Value a, Value b) { return v(d(a) - d(b)); }
  @TLAPlusOperator(identifier = "RMul", module = "Real64", warn = false)
  public static Value mul(Value a, Value b) { return v(d(a) * d(b)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Real64", warn = false)
  public static Value div(Value a, Value b) { return v(d(a) / d(b)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Real64", warn = false)
  public static Value neg(Value a) { return v(-d(a)); }
  @TLAPlusOperator(identifier = "RAbs", module = "Real64", warn = false)
  public static Value abs(Value a) { return v(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "Real64", warn = false)
  public static Value sqrt(Value a) { return v(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "RSin", module = "Real64", warn = false)
  public static Value sin(Value a) { return v(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "RCos", module = "Real64", warn = false)
  public static Value cos(Value a) { return v(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "RTan", module = "Real64", warn = false)
  public static Value tan(Value a) { return v(Math.tan(d(a))); }
  @TLAPlusOperator(identifier = "RAcos", module = "Real64", warn = false)
  public static Value acos(Value a) { return v(Math.acos(d(a))); }
  @TLAPlusOperator(identifier = "RAtan", module = "Real64", warn = false)
  public static Value atan(Value a) { return v(Math.atan(d(a))); }
  @TLAPlusOperator(identifier = "RAtan2", module = "Real64", warn = false)
  public static Value atan2(Value a, Value b) { return v(Math.atan2(d(a), d(b))); }
  @TLAPlusOperator(identifier = "RExp", module = "Real64", warn = false)
  public static Value exp(Value a) { return v(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "RLog", module = "Real64", warn = false)
  public static Value log(Value a) { return v(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "RPow", module = "Real64", warn = false)
  public static Value pow(Value a, Value b) { return v(Math.pow(d(a), d(b))); }
  @TLAPlusOperator(identifier = "RTanh", module = "Real64", warn = false)
  public static Value tanh(Value a) { return v(Math.tanh(d(a))); }
  @TLAPlusOperator(identifier = "RLt", module = "Real64", warn = false)
  public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }
  @TLAPlusOperator(identifier = "RLe", module = "Real64", warn = false)
  public static Value le(Value a, Value b) { return b(d(a) <= d(b)); }
  @TLAPlusOperator(identifier = "RFin", module = "Real64", warn = false)
  public static Value fin(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  @TLAPlusOperator(identifier = "RInt", module = "Real64", warn = false)
  public static Value rint(Value a) { return v(n(a)); }
  @TLAPlusOperator(identifier = "RQ", module = "Real64", warn = false)
  public static Value rq(Value a, Value b) { return v((double) n(a) / (double) n(b)); }
  @TLAPlusOperator(identifier = "RFloor", module = "Real64", warn = false)
  public static Value floor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  @TLAPlusOperator(identifier = "RStr", module = "Real64", warn = false)
  public static Value str(Value a) { return new StringValue(Double.toString(d(a))); }
  @TLAPlusOperator(identifier = "RIsReal", module = "Real64", warn = false)
  public static Value isreal(Value a) { return b(isReal(a)); }
  /** What kind of recorded value this is. */
  @TLAPlusOperator(identifier = "KindOf", module = "Real64", warn = false)
  public static Value kind(Value a) {
    return new StringValue(a instanceof StringValue ? "text" : a instanceof BoolValue ? "truth"
        : a instanceof IntValue ? "integer" : isRecord(a) ? "record" : isReal(a) ? "real" : "sequence");
  }
  static boolean isRecord(Value a) {
    return a instanceof RecordValue
        || ((a instanceof FcnRcdValue || a instanceof FcnLambdaValue) && a.toTuple() == null && a.toRcd() != null);
  }
  @TLAPlusOperator(identifier = "RF32", module = "Real64", warn = false)
  public static Value f32(Value a) { return v((double) (float) d(a)); }

  /** Constant folding: turn a lazy function into an explicit value. */
  @TLAPlusOperator(identifier = "Force", module = "Real64", warn = false)
  public static Value force(Value a) {
    if (a instanceof FcnLambdaValue) {
      Value t = (Value) a.toTuple();
      if (t == null) t = (Value) a.toFcnRcd();
      a = t;
    }
    a.deepNormalize();
    return a;
  }
  /** Deterministic mixing of two integers into a non-negative one. */
  @TLAPlusOperator(identifier = "Mix", module = "Real64", warn = false)
  public static Value mix(Value a, Value b) {
    long z = (((long) n(a)) << 32) ^ (n(b) & 0xffffffffL);
    z += 0x9e3779b97f4a7c15L;
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    z = z ^ (z >>> 31);
    return IntValue.gen((int) (z >>> 33));
  }
}
