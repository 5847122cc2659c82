import java.lang.reflect.*;
import java.util.*;
public class Run {
  static final long[] V = {0, 1, -1, 2, 3, 7, 8, 31, 32, 33, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, -32768, 100000, 0x7fffffffL, -0x80000000L, 0x12345678L};
  static final long[] W = {0x7fffffffffffffffL, -0x8000000000000000L, 0x100000000L, 0x123456789abcdefL, -0xfedcba98L, 0xffffffffL};
  public static void main(String[] x) throws Exception {
    Method[] ms = Conf.class.getDeclaredMethods();
    Arrays.sort(ms, Comparator.comparing(Method::getName));
    for (Method m : ms) {
      Class<?>[] p = m.getParameterTypes();
      if (m.isSynthetic() || p.length != 2 || p[0] != p[1] || p[0] != int.class && p[0] != long.class) continue;
      boolean l = p[0] == long.class;
      long[] vs = l ? Arrays.copyOf(V, V.length + W.length) : V;
      if (l) System.arraycopy(W, 0, vs, V.length, W.length);
      m.setAccessible(true);
      for (long a : vs) for (long b : vs) {
        String r;
        try {
          Object o = l ? m.invoke(null, a, b) : m.invoke(null, (int) a, (int) b);
          r = o instanceof Boolean ? ((Boolean) o ? "1" : "0") : "" + ((Number) o).longValue();
        } catch (InvocationTargetException e) { r = "!" + e.getCause().getClass().getName(); }
        System.out.println(m.getName() + " " + a + " " + b + " " + r);
      }
    }
  }
}
