package stub;
import java.util.*;
public class ext_java_util_List {
  static java_util_stream_Stream stream(List l) { return new java_util_stream_Stream(null, l, null, null, null); }
}
