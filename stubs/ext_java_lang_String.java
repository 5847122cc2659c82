package stub;
public class ext_java_lang_String {
  static boolean startsWith(String s, String p) { int n = p.length(); return n <= s.length() && s.substring(0, n).equals(p); }
  static boolean endsWith(String s, String p) { int n = p.length(), m = s.length(); return n <= m && s.substring(m - n, m).equals(p); }
}
