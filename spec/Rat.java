// TLC override of module Rat: exact rationals written as strings "n" or "n/d" in lowest terms.
// TLC loads this class because it has the name of the module; every public static method
// replaces the operator of the same name. MCRat.tla checks it against integer arithmetic.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Rat {
  private static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  private static final Q QZERO = new Q(ZERO, ONE);
  private static final StringValue S0 = new StringValue("0"), S1 = new StringValue("1");

  private static String str(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).val.toString();
    throw new IllegalArgumentException("not a rational: " + v);
  }
  private static Q parse(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    return parse(str(v));
  }
  private static Q parse(String s) {
    int i = s.indexOf('/');
    if (i < 0) return new Q(new BigInteger(s), ONE);
    return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
  }
  private static Q norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("division by zero");
    BigInteger g = n.gcd(d);
    if (d.signum() < 0) g = g.negate();
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }
  private static Value out(Q q) {
    if (q.d.equals(ONE)) {
      if (q.n.signum() == 0) return S0;
      if (q.n.equals(ONE)) return S1;
      return new StringValue(q.n.toString());
    }
    return new StringValue(q.n + "/" + q.d);
  }
  private static Q add(Q a, Q b) {
    if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
    return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  private static Q mul(Q a, Q b) { return norm(a.n.multiply(b.n), a.d.multiply(b.d)); }
  private static Q sub(Q a, Q b) { return add(a, new Q(b.n.negate(), b.d)); }
  private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

  public static Value RInt(IntValue a) { return out(new Q(BigInteger.valueOf(a.val), ONE)); }
  public static Value RAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
  public static Value RSub(Value a, Value b) { return out(sub(parse(a), parse(b))); }
  public static Value RMul(Value a, Value b) {
    if (a.equals(S1)) return b;
    if (b.equals(S1)) return a;
    return out(mul(parse(a), parse(b)));
  }
  public static Value RDiv(Value a, Value b) {
    if (b.equals(S1)) return a;
    Q x = parse(a), y = parse(b);
    return out(norm(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  public static Value RLe(Value a, Value b) { return cmp(parse(a), parse(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLt(Value a, Value b) { return cmp(parse(a), parse(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value REq(Value a, Value b) { return cmp(parse(a), parse(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Q acc = QZERO;
    for (Value v : t.elems) acc = add(acc, parse(v));
    return out(acc);
  }
  public static Value RIsNum(Value v) {
    if (v instanceof IntValue) return BoolValue.ValTrue;
    String s = str(v);
    int i = s.startsWith("-") ? 1 : 0;
    return i < s.length() && Character.isDigit(s.charAt(i)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RDecimals(Value v) {
    String s = str(v);
    int i = s.indexOf('.');
    return IntValue.gen(i < 0 ? 0 : s.length() - i - 1);
  }
  public static Value RIsPercent(Value v) {
    return str(v).matches("(-?[0-9]+(\\.[0-9]+)?|NaN)%") ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RPercent(Value v) {
    String s = str(v);
    return new StringValue(s.endsWith("%") ? s.substring(0, s.length() - 1) : s);
  }
  // A decimal numeral such as "-12.3450" or "1e-7"; "NaN" if the text is none.
  public static Value RParse(Value v) {
    String s = str(v);
    try {
      BigDecimal b = new BigDecimal(s);
      return b.scale() <= 0 ? out(new Q(b.toBigIntegerExact(), ONE))
          : out(norm(b.unscaledValue(), BigInteger.TEN.pow(b.scale())));
    } catch (NumberFormatException e) {
      return new StringValue("NaN");
    }
  }
}
