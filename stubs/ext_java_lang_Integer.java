package stub;
public class ext_java_lang_Integer {
  static int signum(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
  static int compareTo(Integer a, Integer b) { return Integer.compare(a.intValue(), b.intValue()); }
  static int compareUnsigned(int a, int b) { return Integer.compare(a + Integer.MIN_VALUE, b + Integer.MIN_VALUE); }
  static int divideUnsigned(int a, int b) { return (int) (Integer.toUnsignedLong(a) / Integer.toUnsignedLong(b)); }
  static int remainderUnsigned(int a, int b) { return (int) (Integer.toUnsignedLong(a) % Integer.toUnsignedLong(b)); }
  static int sum(int a, int b) { return a + b; }
  static int rotateLeft(int a, int n) { return (a << n) | (a >>> -n); }
  static int rotateRight(int a, int n) { return (a >>> n) | (a << -n); }
  static int reverseBytes(int i) { return (i << 24) | ((i & 0xff00) << 8) | ((i >>> 8) & 0xff00) | (i >>> 24); }
  static int reverse(int i) {
    i = (i & 0x55555555) << 1 | (i >>> 1) & 0x55555555;
    i = (i & 0x33333333) << 2 | (i >>> 2) & 0x33333333;
    i = (i & 0x0f0f0f0f) << 4 | (i >>> 4) & 0x0f0f0f0f;
    return Integer.reverseBytes(i);
  }
  static int bitCount(int i) { int n = 0; for (int k = 0; k < 32; k++) n += (i >>> k) & 1; return n; }
}
