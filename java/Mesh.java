import java.util.HashMap;
import tlc2.value.impl.*;

/** TLC replacement of AdjOf of Mesh.tla (an indexed construction of the same function). */
public class Mesh {
  public static Value AdjOf(Value m) {
    SetEnumValue s = (SetEnumValue) m.toSetEnum();
    s.normalize();
    HashMap<Value, Value> map = new HashMap<>();
    for (int k = 0; k < s.size(); k++) {
      Value t = s.elems.elementAt(k);
      Value[] c = ((TupleValue) t.toTuple()).elems;
      for (int j = 0; j < 3; j++) map.putIfAbsent(new TupleValue(c[j], c[(j + 1) % 3]), t);
    }
    Value[] dom = map.keySet().toArray(new Value[0]);
    Value[] val = new Value[dom.length];
    for (int k = 0; k < dom.length; k++) val[k] = map.get(dom[k]);
    FcnRcdValue f = new FcnRcdValue(dom, val, false);
    f.normalize();
    return f;
  }
}
