package stub;
public class ext_java_lang_Long {
  static int signum(long x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
  static int compareTo(Long a, Long b) { return Long.compare(a.longValue(), b.longValue()); }
  static long sum(long a, long b) { return a + b; }
  static long max(long a, long b) { return a >= b ? a : b; }
  static long min(long a, long b) { return a <= b ? a : b; }
  static long rotateLeft(long a, int n) { return (a << n) | (a >>> -n); }
  static long rotateRight(long a, int n) { return (a >>> n) | (a << -n); }
  static long reverseBytes(long i) {
    i = (i & 0x00ff00ff00ff00ffL) << 8 | (i >>> 8) & 0x00ff00ff00ff00ffL;
    return (i << 48) | ((i & 0xffff0000L) << 16) | ((i >>> 16) & 0xffff0000L) | (i >>> 48);
  }
  static long reverse(long i) {
    i = (i & 0x5555555555555555L) << 1 | (i >>> 1) & 0x5555555555555555L;
    i = (i & 0x3333333333333333L) << 2 | (i >>> 2) & 0x3333333333333333L;
    i = (i & 0x0f0f0f0f0f0f0f0fL) << 4 | (i >>> 4) & 0x0f0f0f0f0f0f0f0fL;
    return Long.reverseBytes(i);
  }
  static int bitCount(long i) { int n = 0; for (int k = 0; k < 64; k++) n += (int) (i >>> k) & 1; return n; }
}
