package stub;
import java.util.function.*;
public class ext_java_util_function_Function {
  static Function identity() { return x -> x; }
  static Function andThen(Function f, Function g) { return x -> g.apply(f.apply(x)); }
  static Function compose(Function f, Function g) { return x -> f.apply(g.apply(x)); }
}
