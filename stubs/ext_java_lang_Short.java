package stub;
public class ext_java_lang_Short {
  static short reverseBytes(short i) { return (short) (((i & 0xff00) >> 8) | (i << 8)); }
  static int compareTo(Short a, Short b) { return a.shortValue() - b.shortValue(); }
  static int compare(short a, short b) { return a - b; }
}
