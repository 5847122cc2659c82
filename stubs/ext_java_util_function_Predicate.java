package stub;
import java.util.function.*;
public class ext_java_util_function_Predicate {
  static Predicate negate(Predicate p) { return x -> !p.test(x); }
  static Predicate and(Predicate p, Predicate q) { return x -> p.test(x) && q.test(x); }
  static Predicate or(Predicate p, Predicate q) { return x -> p.test(x) || q.test(x); }
}
