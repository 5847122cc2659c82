package stub;
public class java_util_stream_Collector { final int kind; final CharSequence sep, pre, suf; java_util_stream_Collector(int kind, CharSequence sep, CharSequence pre, CharSequence suf) { this.kind = kind; this.sep = sep; this.pre = pre; this.suf = suf; } }
