// TLC override of the operators of module Text. TLC loads this class because it has the
// name of the module.
import java.util.ArrayList;
import java.util.List;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Text {
  private static final int MARK = 0xF0000;

  private static int[] chars(Value v) { return ((StringValue) v).val.toString().codePoints().toArray(); }
  private static int num(Value v) { return ((IntValue) v).val; }
  private static Value text(int[] c, int from, int n) { return new StringValue(new String(c, from, n)); }

  public static Value TLen(Value t) { return IntValue.gen(chars(t).length); }
  public static Value TSub(Value t, Value i, Value n) {
    int[] c = chars(t);
    int from = Math.min(Math.max(num(i), 0), c.length), to = Math.min(Math.max(num(i) + num(n), from), c.length);
    return text(c, from, to - from);
  }
  public static Value TRep(Value c, Value n) { return new StringValue(((StringValue) c).val.toString().repeat(Math.max(num(n), 0))); }
  public static Value TPut(Value t, Value i, Value u) {
    int[] c = chars(t), d = chars(u);
    for (int k = 0; k < d.length; k++) {
      int at = num(i) + k;
      if (at >= 0 && at < c.length) c[at] = d[k];
    }
    return text(c, 0, c.length);
  }
  public static Value TMark(Value i) { return new StringValue(new String(Character.toChars(MARK + num(i)))); }
  public static Value TField(Value t, Value e, Value i) {
    int[] c = chars(t), x = chars(e), r = new int[c.length];
    int n = 0;
    for (int k = 0; k < c.length && k < x.length; k++) if (x[k] == MARK + num(i)) r[n++] = c[k];
    return text(r, 0, n);
  }
  public static Value TAgrees(Value t, Value e) {
    int[] c = chars(t), x = chars(e);
    boolean ok = c.length == x.length;
    for (int k = 0; ok && k < c.length; k++) ok = x[k] >= MARK || x[k] == c[k];
    return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value TSplit(Value t, Value sep) {
    int[] c = chars(t);
    int s = chars(sep)[0], from = 0;
    List<Value> parts = new ArrayList<>();
    for (int k = 0; k <= c.length; k++)
      if (k == c.length || c[k] == s) {
        parts.add(text(c, from, k - from));
        from = k + 1;
      }
    return new TupleValue(parts.toArray(new Value[0]));
  }
  public static Value TTrim(Value t) {
    int[] c = chars(t);
    int from = 0, to = c.length;
    while (from < to && c[from] == ' ') from++;
    while (to > from && c[to - 1] == ' ') to--;
    return text(c, from, to - from);
  }
  public static Value TBar(Value t) {
    int[] c = chars(t);
    int k = 0, n = 0;
    while (k < c.length && c[k] == 0x2588) { n += 8; k++; }
    if (k < c.length && c[k] > 0x2588 && c[k] <= 0x258F) { n += 0x2590 - c[k]; k++; }
    while (k < c.length && c[k] == 0x2591) k++;
    return IntValue.gen(k == c.length ? n : -1);
  }
}
