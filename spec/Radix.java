// TLC override of the operators Row and Size of module Radix. MCRadix.tla checks it against
// the definitions in TLA+.
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Radix {
  private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static int num(Value v) { return ((IntValue) v).val; }

  public static Value Row(Value card, Value scope, Value a) {
    Value[] c = seq(card), s = seq(scope), as = seq(a);
    int r = 0;
    for (Value x : s) {
      int v = num(x) - 1;
      r = Math.addExact(Math.multiplyExact(r, num(c[v])), num(as[v]));
    }
    return IntValue.gen(r);
  }
  public static Value Size(Value card, Value scope) {
    Value[] c = seq(card);
    int r = 1;
    for (Value x : seq(scope)) r = Math.multiplyExact(r, num(c[num(x) - 1]));
    return IntValue.gen(r);
  }
}
