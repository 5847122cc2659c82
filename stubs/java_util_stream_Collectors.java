package stub;
public class java_util_stream_Collectors {
  public static java_util_stream_Collector toList() { return new java_util_stream_Collector(0, null, null, null); }
  public static java_util_stream_Collector joining() { return new java_util_stream_Collector(1, "", "", ""); }
  public static java_util_stream_Collector joining(CharSequence s) { return new java_util_stream_Collector(1, s, "", ""); }
  public static java_util_stream_Collector joining(CharSequence s, CharSequence p, CharSequence q) { return new java_util_stream_Collector(1, s, p, q); }
}
