package ibigspec;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Accelerated evaluation of the operators of module BigZ (same representation, see BigZPure). */
public class BigOv implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() {
    return new Class[] {BigOv.class};
  }

  static final UniqueString NEG = UniqueString.uniqueStringOf("neg"), MAG = UniqueString.uniqueStringOf("mag");
  static final StringValue SNEG = new StringValue(NEG), SMAG = new StringValue(MAG);
  static final IntValue[] DIGIT = new IntValue[4096];

  static {
    for (int i = 0; i < 4096; i++) DIGIT[i] = IntValue.gen(i);
  }

  static BigInteger big(Value v) {
    RecordValue r = (RecordValue) v.toRcd();
    boolean neg = ((BoolValue) r.select(SNEG)).val;
    Value[] t = ((TupleValue) r.select(SMAG).toTuple()).elems;
    int len = t.length;
    if (len <= 5) {
      long x = 0;
      for (int i = len - 1; i >= 0; i--) x = (x << 12) | ((IntValue) t[i]).val;
      return BigInteger.valueOf(neg ? -x : x);
    }
    byte[] b = new byte[(len * 12 + 7) / 8 + 1];
    for (int i = 0; i < len; i++) {
      int x = ((IntValue) t[i]).val;
      int bit = i * 12;
      int by = b.length - 1 - (bit >> 3);
      if ((bit & 7) == 0) {
        b[by] |= x;
        b[by - 1] |= (x >> 8);
      } else {
        b[by] |= (x << 4);
        b[by - 1] |= (x >> 4);
      }
    }
    BigInteger g = new BigInteger(b);
    return neg ? g.negate() : g;
  }

  static Value val(BigInteger g) {
    boolean neg = g.signum() < 0;
    if (neg) g = g.negate();
    int bits = g.bitLength();
    int len = (bits + 11) / 12;
    Value[] e = new Value[len];
    if (len <= 5) {
      long x = g.longValue();
      for (int i = 0; i < len; i++, x >>= 12) e[i] = DIGIT[(int) (x & 4095)];
    } else {
      byte[] b = g.toByteArray();
      for (int i = 0; i < len; i++) {
        int bit = i * 12;
        int by = b.length - 1 - (bit >> 3);
        int x = (b[by] & 255) | ((by > 0 ? (b[by - 1] & 255) : 0) << 8);
        e[i] = DIGIT[(bit & 7) == 0 ? x & 4095 : x >> 4];
      }
    }
    return new RecordValue(
        new UniqueString[] {MAG, NEG},
        new Value[] {new TupleValue(e), neg ? BoolValue.ValTrue : BoolValue.ValFalse},
        false);
  }

  static int i(Value v) {
    return ((IntValue) v).val;
  }

  static Value b(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static String s(Value v) {
    return ((StringValue) v).val.toString();
  }

  static final String M = "BigZ";

  @TLAPlusOperator(identifier = "ZInt", module = M, warn = false)
  public static Value ZInt(Value n) {
    return val(BigInteger.valueOf(i(n)));
  }

  @TLAPlusOperator(identifier = "ZToInt", module = M, warn = false)
  public static Value ZToInt(Value a) {
    return IntValue.gen(big(a).intValueExact());
  }

  @TLAPlusOperator(identifier = "ZNeg", module = M, warn = false)
  public static Value ZNeg(Value a) {
    return val(big(a).negate());
  }

  @TLAPlusOperator(identifier = "ZAbs", module = M, warn = false)
  public static Value ZAbs(Value a) {
    return val(big(a).abs());
  }

  @TLAPlusOperator(identifier = "ZSgn", module = M, warn = false)
  public static Value ZSgn(Value a) {
    return IntValue.gen(big(a).signum());
  }

  @TLAPlusOperator(identifier = "ZCmp", module = M, warn = false)
  public static Value ZCmp(Value a, Value c) {
    return IntValue.gen(big(a).compareTo(big(c)));
  }

  @TLAPlusOperator(identifier = "ZAdd", module = M, warn = false)
  public static Value ZAdd(Value a, Value c) {
    return val(big(a).add(big(c)));
  }

  @TLAPlusOperator(identifier = "ZSub", module = M, warn = false)
  public static Value ZSub(Value a, Value c) {
    return val(big(a).subtract(big(c)));
  }

  @TLAPlusOperator(identifier = "ZMul", module = M, warn = false)
  public static Value ZMul(Value a, Value c) {
    return val(big(a).multiply(big(c)));
  }

  @TLAPlusOperator(identifier = "ZDivT", module = M, warn = false)
  public static Value ZDivT(Value a, Value c) {
    return val(big(a).divide(big(c)));
  }

  @TLAPlusOperator(identifier = "ZRemT", module = M, warn = false)
  public static Value ZRemT(Value a, Value c) {
    return val(big(a).remainder(big(c)));
  }

  @TLAPlusOperator(identifier = "ZPow", module = M, warn = false)
  public static Value ZPow(Value a, Value n) {
    return val(big(a).pow(i(n)));
  }

  @TLAPlusOperator(identifier = "ZShl", module = M, warn = false)
  public static Value ZShl(Value a, Value n) {
    return val(big(a).shiftLeft(nat(n)));
  }

  static int nat(Value n) {
    int k = i(n);
    if (k < 0) throw new RuntimeException("natural number expected: " + k);
    return k;
  }

  @TLAPlusOperator(identifier = "ZShrFloor", module = M, warn = false)
  public static Value ZShrFloor(Value a, Value n) {
    return val(big(a).shiftRight(nat(n)));
  }

  @TLAPlusOperator(identifier = "ZOdd", module = M, warn = false)
  public static Value ZOdd(Value a) {
    return b(big(a).testBit(0));
  }

  @TLAPlusOperator(identifier = "ZBit", module = M, warn = false)
  public static Value ZBit(Value a, Value n) {
    return b(big(a).testBit(i(n)));
  }

  @TLAPlusOperator(identifier = "ZBitLen", module = M, warn = false)
  public static Value ZBitLen(Value a) {
    return IntValue.gen(big(a).abs().bitLength());
  }

  @TLAPlusOperator(identifier = "ZTz", module = M, warn = false)
  public static Value ZTz(Value a) {
    BigInteger x = big(a);
    if (x.signum() == 0) throw new RuntimeException("ZTz(0)");
    return IntValue.gen(x.getLowestSetBit());
  }

  @TLAPlusOperator(identifier = "ZAnd", module = M, warn = false)
  public static Value ZAnd(Value a, Value c) {
    return val(big(a).and(big(c)));
  }

  @TLAPlusOperator(identifier = "ZOr", module = M, warn = false)
  public static Value ZOr(Value a, Value c) {
    return val(big(a).or(big(c)));
  }

  @TLAPlusOperator(identifier = "ZXor", module = M, warn = false)
  public static Value ZXor(Value a, Value c) {
    return val(big(a).xor(big(c)));
  }

  @TLAPlusOperator(identifier = "ZNot", module = M, warn = false)
  public static Value ZNot(Value a) {
    return val(big(a).not());
  }

  @TLAPlusOperator(identifier = "ZGcd", module = M, warn = false)
  public static Value ZGcd(Value a, Value c) {
    return val(big(a).gcd(big(c)));
  }

  @TLAPlusOperator(identifier = "ZMod", module = M, warn = false)
  public static Value ZMod(Value a, Value m) {
    return val(big(a).mod(big(m)));
  }

  @TLAPlusOperator(identifier = "ZPowMod", module = M, warn = false)
  public static Value ZPowMod(Value a, Value e, Value m) {
    BigInteger x = big(e);
    if (x.signum() < 0) throw new RuntimeException("ZPowMod: negative exponent");
    return val(big(a).modPow(x, big(m)));
  }

  @TLAPlusOperator(identifier = "ZFromDigits", module = M, warn = false)
  public static Value ZFromDigits(Value seq, Value radix) {
    Value[] t = ((TupleValue) seq.toTuple()).elems;
    int r = i(radix);
    if (r <= 36) {
      StringBuilder sb = new StringBuilder(t.length + 1);
      sb.append('0');
      for (Value v : t) sb.append(Character.forDigit(i(v), r));
      return val(new BigInteger(sb.toString(), r));
    }
    if (r == 256) {
      byte[] by = new byte[t.length + 1];
      for (int k = 0; k < t.length; k++) by[k + 1] = (byte) i(t[k]);
      return val(new BigInteger(by));
    }
    BigInteger x = BigInteger.ZERO, rr = BigInteger.valueOf(r);
    for (Value v : t) x = x.multiply(rr).add(BigInteger.valueOf(i(v)));
    return val(x);
  }

  @TLAPlusOperator(identifier = "ZDigits", module = M, warn = false)
  public static Value ZDigits(Value a, Value radix) {
    BigInteger x = big(a).abs();
    int r = i(radix);
    if (x.signum() == 0) return new TupleValue(new Value[0]);
    if (r <= 36) {
      String t = x.toString(r);
      Value[] e = new Value[t.length()];
      for (int k = 0; k < e.length; k++) e[k] = DIGIT[Character.digit(t.charAt(k), 36)];
      return new TupleValue(e);
    }
    if (r == 256) {
      byte[] by = x.toByteArray();
      int off = by[0] == 0 ? 1 : 0;
      Value[] e = new Value[by.length - off];
      for (int k = 0; k < e.length; k++) e[k] = DIGIT[by[k + off] & 255];
      return new TupleValue(e);
    }
    java.util.ArrayList<Value> l = new java.util.ArrayList<>();
    BigInteger rr = BigInteger.valueOf(r);
    while (x.signum() != 0) {
      BigInteger[] d = x.divideAndRemainder(rr);
      l.add(IntValue.gen(d[1].intValue()));
      x = d[0];
    }
    java.util.Collections.reverse(l);
    return new TupleValue(l.toArray(new Value[0]));
  }

  @TLAPlusOperator(identifier = "ZHex", module = M, warn = false)
  public static Value ZHex(Value t) {
    String x = s(t);
    if (x.length() <= 15) return val(BigInteger.valueOf(Long.parseLong(x, 16)));
    return val(new BigInteger(x, 16));
  }

  @TLAPlusOperator(identifier = "ZIsHex", module = M, warn = false)
  public static Value ZIsHex(Value t, Value a) {
    return b(big(a).toString(16).equals(s(t)));
  }

  @TLAPlusOperator(identifier = "ZText", module = M, warn = false)
  public static Value ZText(Value a) {
    return new StringValue(big(a).toString(16));
  }
}
