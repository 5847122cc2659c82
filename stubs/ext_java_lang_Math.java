package stub;
public class ext_java_lang_Math {
  static int floorDiv(int x, int y) { int r = x / y; return (x ^ y) < 0 && r * y != x ? r - 1 : r; }
  static int floorMod(int x, int y) { return x - floorDiv(x, y) * y; }
  static long floorDiv(long x, long y) { long r = x / y; return (x ^ y) < 0 && r * y != x ? r - 1 : r; }
  static long floorMod(long x, long y) { return x - floorDiv(x, y) * y; }
  static int addExact(int x, int y) { int r = x + y; if (((x ^ r) & (y ^ r)) < 0) throw new ArithmeticException("integer overflow"); return r; }
  static int subtractExact(int x, int y) { int r = x - y; if (((x ^ y) & (x ^ r)) < 0) throw new ArithmeticException("integer overflow"); return r; }
  static int multiplyExact(int x, int y) { long r = (long) x * (long) y; if ((int) r != r) throw new ArithmeticException("integer overflow"); return (int) r; }
  static int negateExact(int x) { if (x == Integer.MIN_VALUE) throw new ArithmeticException("integer overflow"); return -x; }
  static int incrementExact(int x) { if (x == Integer.MAX_VALUE) throw new ArithmeticException("integer overflow"); return x + 1; }
}
