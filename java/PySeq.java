// Fast evaluation of operators that are defined in specs/PySeq.tla
import tlc2.value.impl.*;

public class PySeq {
  static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
  public static Value CommonLen(Value a, Value b, Value i0) {
    Value[] x = elems(a), y = elems(b);
    int i = ((IntValue) i0).val;
    while (i < x.length && i < y.length && x[i].equals(y[i])) i++;
    return IntValue.gen(i);
  }
  public static Value Rev(Value s) {
    Value[] x = elems(s), r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = x[x.length - 1 - i];
    return new TupleValue(r);
  }
}
