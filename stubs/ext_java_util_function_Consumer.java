package stub;
import java.util.function.*;
public class ext_java_util_function_Consumer { static Consumer andThen(Consumer f, Consumer g) { return x -> { f.accept(x); g.accept(x); }; } }
