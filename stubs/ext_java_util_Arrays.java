package stub;
import java.util.*;
public class ext_java_util_Arrays {
  static java_util_stream_Stream stream(Object[] a) { return new java_util_stream_Stream(a, null, null, null, null); }
  static boolean equals(Object[] a, Object[] b) {
    if (a == b) return true;
    if (a == null || b == null) return false;
    int n = a.length;
    if (b.length != n) return false;
    for (int i = 0; i < n; i++) if (!Objects.equals(a[i], b[i])) return false;
    return true;
  }
}
