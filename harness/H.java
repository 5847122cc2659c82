import com.finproto.codec.*;
import io.netty.buffer.*;
import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;

/** Runs the contracts of /verif/contracts as assertions on the real classes. */
public class H {
  // ------------------------------------------------------------------ contracts
  static final class P {
    String kind, name; String[] a; int w, n; boolean le, left; char pad; String body, alg, cls, fac, disc; P el;
    Method get, set; Class<?> type;
    P(String kind, String name, String[] a) {
      this.kind = kind; this.name = name; this.a = a;
      switch (kind) {
        case "length": body = a[2]; w = Integer.parseInt(a[0]); le = a[1].equals("le"); break;
        case "checksum": alg = a[2]; w = Integer.parseInt(a[0]); le = a[1].equals("le"); break;
        case "num": case "dyn": w = Integer.parseInt(a[0]); le = a[1].equals("le"); break;
        case "text": n = Integer.parseInt(a[0]); pad = (char) Integer.parseInt(a[1]); left = a[2].equals("left"); break;
        case "list": w = Integer.parseInt(a[0]); le = a[1].equals("le"); el = new P(a[2], name + "[]", Arrays.copyOfRange(a, 3, a.length)); break;
        case "msg": cls = a[0]; break;
        case "variant": fac = a[0]; disc = a[1]; break;
        default: throw new Error(kind);
      }
    }
    boolean computed() { return kind.equals("length") || kind.equals("checksum"); }
  }
  static final class Msg {
    String name; Class<?> c; List<P> props = new ArrayList<>(); Boolean hasVariant;
    String shortName() { return name.substring(Math.max(name.lastIndexOf('.'), name.lastIndexOf('$')) + 1); }
    P prop(String n) { for (P p : props) if (p.name.equals(n)) return p; throw new Error(n); }
  }
  static final class Fac { String id, cls, meth; char kt; boolean local; Map<Object, String> cases = new LinkedHashMap<>(); Map<String, Integer> names = new LinkedHashMap<>(); Object inst; }
  static final Map<String, Msg> MSGS = new LinkedHashMap<>();
  static final Map<String, Fac> FACS = new LinkedHashMap<>();
  static final List<Number> NUMS = new ArrayList<>();
  static final List<String> STRS = new ArrayList<>();

  static void load(String path) throws Exception {
    Msg cur = null; Fac f = null;
    for (String line : Files.readAllLines(Paths.get(path))) {
      String[] w = line.trim().split("\\s+");
      if (w[0].isEmpty() || w[0].startsWith("#")) continue;
      if (w[0].equals("message")) { cur = new Msg(); cur.name = w[1]; MSGS.put(w[1], cur); }
      else if (w[0].equals("factory")) {
        f = new Fac(); f.id = w[1]; f.kt = w[2].charAt(0); f.local = w[1].contains("#"); f.cls = w[1].split("#")[0]; f.meth = f.local ? w[1].split("#")[1] : "create"; FACS.put(f.id, f);
      } else if (w[0].equals("case")) {
        f.cases.put(key(f, w[1]), w[2]);
        if (w.length > 3) f.names.put(w[3], Integer.parseInt(w[1]));
      } else cur.props.add(new P(w[0], w[1], Arrays.copyOfRange(w, 2, w.length)));
    }
    for (Msg m : MSGS.values()) {
      m.c = Class.forName(m.name);
      for (P p : m.props) {
        String cap = Character.toUpperCase(p.name.charAt(0)) + p.name.substring(1);
        for (Method x : m.c.getMethods()) {
          if (x.getParameterCount() == 0 && !Modifier.isStatic(x.getModifiers()) && (x.getName().equals("get" + cap) || x.getName().equals("is" + cap)) && !x.isBridge()) p.get = x;
          if (x.getParameterCount() == 1 && !Modifier.isStatic(x.getModifiers()) && x.getName().equals("set" + cap) && !x.isBridge()) p.set = x;
        }
        if (p.get == null || p.set == null) throw new Fail("property " + p.name + " of " + m.name + " has no getter or setter");
        p.get.setAccessible(true); p.set.setAccessible(true);
        p.type = p.get.getReturnType();
        if (p.el != null) {
          Type t = p.get.getGenericReturnType(); p.el.type = Object.class;
          if (t instanceof ParameterizedType && ((ParameterizedType) t).getActualTypeArguments()[0] instanceof Class) p.el.type = (Class<?>) ((ParameterizedType) t).getActualTypeArguments()[0];
        }
      }
    }
  }
  static Object key(Fac f, String s) {
    switch (f.kt) { case 'S': return s; case 'I': return Integer.valueOf(s); case 'H': return Short.valueOf(s); default: throw new Error(); }
  }
  static boolean hasVariant(Msg m) {
    if (m.hasVariant == null) {
      boolean r = false;
      for (P p : m.props) { P q = p.el != null ? p.el : p; if (q.kind.equals("variant") || q.kind.equals("msg") && hasVariant(MSGS.get(q.cls))) r = true; }
      m.hasVariant = r;
    }
    return m.hasVariant;
  }
  static final class Fail extends RuntimeException { Fail(String s) { super(s); } }
  static Fail fail(String s) { return new Fail(s); }

  // ------------------------------------------------------------------ access
  static Object get(Object o, P p) { try { return p.get.invoke(o); } catch (InvocationTargetException e) { throw sneaky(e.getCause()); } catch (IllegalAccessException e) { throw new Error(e); } }
  static void set(Object o, P p, Object v) { try { p.set.invoke(o, v); } catch (InvocationTargetException e) { throw sneaky(e.getCause()); } catch (IllegalAccessException e) { throw new Error(e); } }
  @SuppressWarnings("unchecked") static <T extends Throwable> RuntimeException sneaky(Throwable t) throws T { throw (T) t; }
  static BinaryCodec make(Msg m) {
    try { Constructor<?> k = m.c.getDeclaredConstructor(); k.setAccessible(true); return (BinaryCodec) k.newInstance(); }
    catch (InvocationTargetException e) { throw sneaky(e.getCause()); } catch (ReflectiveOperationException e) { throw new Error(e); }
  }
  static Msg msgOf(Object o) { Msg m = MSGS.get(o.getClass().getName()); if (m == null) throw fail("unexpected type " + o.getClass().getName()); return m; }
  static Object facInst(Fac f) {
    try {
      if (f.inst == null) { Method m = Class.forName(f.cls).getMethod("getInstance"); m.setAccessible(true); f.inst = m.invoke(null); }
      return f.inst;
    } catch (InvocationTargetException e) { throw sneaky(e.getCause()); } catch (ReflectiveOperationException e) { throw new Error(e); }
  }
  static Object create(Fac f, Object key) {
    try {
      Object inst = f.local ? make(MSGS.get(f.cls)) : facInst(f);
      Class<?> c = Class.forName(f.cls);
      for (Method m : c.getDeclaredMethods()) if (m.getName().equals(f.meth) && m.getParameterCount() == 1 && !m.isBridge()) { m.setAccessible(true); return m.invoke(Modifier.isStatic(m.getModifiers()) ? null : inst, key); }
      if (f.local) return null;
      throw fail(f.cls + " has no " + f.meth);
    } catch (InvocationTargetException e) { throw sneaky(e.getCause()); } catch (ReflectiveOperationException e) { throw new Error(e); }
  }
  /** the type the code has registered for a key, or null */
  static Msg registered(Fac f, Object key) {
    Object o;
    try { o = create(f, key); } catch (IllegalArgumentException e) { return null; }
    if (o == null) return f.local ? MSGS.get(f.cases.get(key)) : null;
    return MSGS.get(o.getClass().getName());
  }

  // ------------------------------------------------------------------ generation
  static final class G {
    final Random r; final long seed; boolean fits = true, nulls = false; int big = 0; int depth = 0, cap = 1 << 30;
    G(long seed) { this.seed = seed; r = new Random(seed); }
    int n(int k) { return r.nextInt(k); }
    boolean one(int k) { return r.nextInt(k) == 0; }
    long num(int w) {
      int bits = 8 * Math.min(w, 8);
      switch (n(8)) {
        case 0: return 0;
        case 1: return n(2) == 0 ? 1 : -1;
        case 2: { long m = bits == 64 ? Long.MIN_VALUE : -(1L << (bits - 1)); return n(2) == 0 ? m : -(m + 1); }
        case 3: return (1L << n(bits)) - n(2);
        case 4: return n(256);
        case 5: case 6: if (!NUMS.isEmpty()) return NUMS.get(n(NUMS.size())).longValue() + n(3) - 1;
        default: return r.nextLong() >> n(64);
      }
    }
    Object boxed(Class<?> t, long v) {
      if (t == byte.class || t == Byte.class) return (byte) v;
      if (t == short.class || t == Short.class) return (short) v;
      if (t == int.class || t == Integer.class) return (int) v;
      if (t == long.class || t == Long.class) return v;
      if (t == char.class || t == Character.class) return (char) v;
      if (t == boolean.class || t == Boolean.class) return (v & 1) != 0;
      if (t == float.class || t == Float.class) return flt(v).floatValue();
      if (t == double.class || t == Double.class) return flt(v);
      throw new Error("number type " + t);
    }
    Double flt(long v) {
      switch (n(8)) { case 0: return 0.0; case 1: return -0.0; case 2: return Double.NaN; case 3: return Double.POSITIVE_INFINITY; case 4: return -1.5; case 5: return (double) v; case 6: return (double) Float.intBitsToFloat((int) v); default: return Double.longBitsToDouble(v); }
    }
    static final int[] CPS = {0, 9, 10, 13, 32, 32, 48, 48, 57, 65, 90, 97, 122, 0x7e, 0x7f, 0x80, 0xa0, 0xe9, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff};
    int cp(int pad) {
      switch (n(6)) {
        case 0: return pad;
        case 1: return CPS[n(CPS.length)];
        case 2: { int c; do c = n(0x110000); while (c >= 0xd800 && c < 0xe000); return c; }
        case 3: return 48 + n(10);
        default: return 33 + n(94);
      }
    }
    static int u8(int c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
    String chars(int bytes, int pad) {   // at most that many UTF-8 bytes
      StringBuilder b = new StringBuilder(); int left = bytes; boolean ascii = one(2);
      for (int guard = 0; left > 0 && guard < bytes * 4 + 8; guard++) {
        int c = ascii ? (one(5) ? pad : 33 + n(94)) : cp(pad);
        if (u8(c) <= left) { b.appendCodePoint(c); left -= u8(c); }
      }
      return b.toString();
    }
    static String rep(int c, int k) { StringBuilder b = new StringBuilder(); for (int i = 0; i < k; i++) b.append((char) c); return b.toString(); }
    static int blen(String s) { return s.getBytes(StandardCharsets.UTF_8).length; }
    String text(int width, int pad) {
      switch (n(14)) {
        case 0: return null;
        case 1: return "";
        case 2: return rep(pad, n(width + 1));
        case 3: return chars(width, pad);
        case 4: { String s = chars(n(width + 1), pad); int k = width - blen(s); return s + rep(pad, n(Math.max(k, 0) + 1)); }
        case 5: { String s = chars(n(width + 1), pad); int k = width - blen(s); return rep(pad, n(Math.max(k, 0) + 1)) + s; }
        case 6: { String s = chars(width, pad); return s.length() > 2 && pad < 128 ? ins(s, pad, width) : s; }
        case 7: if (!STRS.isEmpty()) { String s = STRS.get(n(STRS.size())); if (one(2)) s = s + chars(2, pad); return fits ? cut(s, width) : s; }
        case 8: if (!fits) { String s = chars(width + 1 + n(5), pad); return one(3) ? s + chars(n(width + 300), pad) : s; } return rep(48, n(width + 1));
        case 9: if (!fits) { StringBuilder b = new StringBuilder(chars(Math.max(0, width - n(4)), pad)); b.appendCodePoint(0x20ac); b.appendCodePoint(0x1f600); return b.toString(); } return cut(String.valueOf(num(4)), width);
        case 10: if (!NUMS.isEmpty()) return cut(String.valueOf(NUMS.get(n(NUMS.size()))), width);
        default: return chars(n(width + 1), pad);
      }
    }
    String ins(String s, int pad, int width) { int k = s.offsetByCodePoints(0, s.codePointCount(0, s.length()) / 2); return cut(s.substring(0, k) + (char) pad + s.substring(k), width); }
    String cut(String s, int width) { while (blen(s) > width) s = s.substring(0, s.offsetByCodePoints(s.length(), -1)); return s; }
    int len(int w) {  // list or text length within the positive range of a prefix of w bytes
      int max = w == 1 ? 127 : w == 2 ? 32767 : Integer.MAX_VALUE;
      int v;
      if (big > 0 && one(3)) { big--; int[] c = {126, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 4095, 4096, 8191, 8193, 32766, 32767, 32768, 65535, 65536, 70000}; v = c[n(c.length)]; if (w == 2 && one(2)) v = 32767 - n(2); }
      else v = one(4) ? n(20) : n(5);
      if ((FOCUS ? one(12) : big > 0 && one(40)) && !NUMS.isEmpty()) { long q = NUMS.get(n(NUMS.size())).longValue(); if (q >= 0 && q < 70000) { v = (int) q + n(2); big--; } }
      return Math.min(v, Math.min(max, cap));
    }
    String dyn(int w) {
      switch (n(6)) {
        case 0: return null;
        case 1: return "";
        case 2: if (!STRS.isEmpty()) { String s = STRS.get(n(STRS.size())); return s.length() > 100 ? cut(s, 50) : s; }
        default: return chars(len(w), 32);
      }
    }
    Object val(P p, Object host, boolean element) {
      switch (p.kind) {
        case "num": case "length": case "checksum": return boxed(p.type, num(p.w));
        case "text": { String s = text(p.n, p.pad); return s == null && element && !nulls ? "" : s; }
        case "dyn": { String s = dyn(p.w); return s == null && element && !nulls ? "" : s; }
        case "msg": return msg(MSGS.get(p.cls));
        case "list": {
          int k = n(7); if (k == 0) return null;
          List<Object> l = one(5) ? new LinkedList<>() : new ArrayList<>();
          if (k == 1) return one(2) ? l : Collections.emptyList();
          int sz = p.el.kind.equals("msg") && depth > 1 ? n(3) : len(p.w);
          if (p.el.kind.equals("msg") && sz > 300 && !(FOCUS && depth < 2 && big-- > 0 && small(MSGS.get(p.el.cls)))) sz = Math.min(sz, 300 + n(50));
          int cap0 = cap; if (sz > 20) cap = Math.min(cap, Math.max(20, 2_000_000 / sz));
          try {
          if (sz > 100) { List<Object> few = new ArrayList<>(); for (int i = 0; i < 7; i++) few.add(val(p.el, null, true)); for (int i = 0; i < sz; i++) l.add(few.get(n(7))); return l instanceof LinkedList ? new ArrayList<>(l) : l; }
          for (int i = 0; i < sz; i++) l.add(val(p.el, null, true));
          if (sz > 1 && one(8)) l.set(1, l.get(0));
          return one(8) ? Collections.unmodifiableList(l) : one(8) ? Arrays.asList(l.toArray()) : l;
          } finally { cap = cap0; }
        }
        default: throw new Error(p.kind);
      }
    }
    static boolean small(Msg m) { if (m.props.size() > 6) return false; for (P p : m.props) if (!p.kind.equals("num") && !p.kind.equals("text")) return false; return true; }
    BinaryCodec msg(Msg m) {
      BinaryCodec o = make(m); depth++;
      fill(o, m);
      if (!CEX.isEmpty() && n(3) > 0) { Cex c = CEX.get(n(CEX.size())); if (c.msg.equals(m.name)) c.apply(this, o, m); }
      depth--; return o;
    }
    void fill(Object o, Msg m) {
      for (P p : m.props) if (!p.kind.equals("variant")) set(o, p, val(p, o, false));
      for (P p : m.props) if (p.kind.equals("variant")) {
        Fac f = FACS.get(p.fac); List<Object> ks = new ArrayList<>(f.cases.keySet());
        Object k = ks.get(n(ks.size())); Msg b = registered(f, k);
        for (int i = 0; b == null && i < 50; i++) { k = ks.get(n(ks.size())); b = registered(f, k); }
        boolean ok = b != null && depth < 6;
        if (!fits && one(4)) ok = false;
        if (ok) { set(o, m.prop(p.disc), disc(m.prop(p.disc), k)); set(o, p, msg(b)); }
        else { if (!fits || b == null) { if (b != null && one(2)) set(o, m.prop(p.disc), disc(m.prop(p.disc), k)); set(o, p, null); } else { set(o, m.prop(p.disc), disc(m.prop(p.disc), k)); set(o, p, make(b)); } }
      }
    }
    Object disc(P d, Object k) {
      if (k instanceof String) { String s = (String) k; int room = d.n - blen(s); return room > 0 && one(3) ? (d.left ? rep(d.pad, n(room + 1)) + s : s + rep(d.pad, n(room + 1))) : s; }
      return boxed(d.type, ((Number) k).longValue());
    }
  }
  /** property values of a verifier counterexample, used as a starting point */
  static final class Cex {
    String msg; final Map<String, String> vals = new LinkedHashMap<>();
    void apply(G g, Object o, Msg m) {
      int keep = g.n(3);   // all values, most or half of them
      for (P p : m.props) {
        String v = vals.get(p.name); if (v == null || p.kind.equals("variant") || p.kind.equals("msg") || keep > 0 && g.one(keep == 1 ? 8 : 2)) continue;
        boolean disc = false; Fac fac = null; P var = null;
        for (P q : m.props) if (q.kind.equals("variant") && q.disc.equals(p.name)) { var = q; fac = FACS.get(q.fac); }
        String[] w = v.split(" "); Object x;
        if (w[0].equals("n")) { if (p.type == String.class || p.kind.equals("list")) continue; x = p.type == float.class || p.type == Float.class ? (Object) Float.intBitsToFloat((int) Long.parseLong(w[1])) : p.type == double.class || p.type == Double.class ? (Object) Double.longBitsToDouble(Long.parseLong(w[1])) : g.boxed(p.type, Long.parseLong(w[1])); }
        else if (w[0].equals("0")) x = null;
        else if (w[0].equals("s")) { if (p.type != String.class) continue; String s = w.length > 1 ? unhex(w[1]) : ""; x = g.fits && p.kind.equals("text") ? g.cut(s, p.n) : s; }
        else if (w[0].equals("l") && p.kind.equals("list")) { int k = Integer.parseInt(w[1]); if (p.el.kind.equals("msg")) k = Math.min(k, 200); List<Object> l = new ArrayList<>(); List<Object> few = new ArrayList<>(); for (int i = 0; i < Math.min(k, 5); i++) few.add(g.val(p.el, null, true)); for (int i = 0; i < k; i++) l.add(few.get(g.n(few.size()))); x = l; }
        else continue;
        if (x == null && p.type.isPrimitive()) continue;
        if (var != null) {
          Object k = x instanceof String ? trim((String) x, p) : x;
          Object key = null; for (Object q : fac.cases.keySet()) if (String.valueOf(q).equals(String.valueOf(k))) key = q;
          Msg b = key == null ? null : registered(fac, key);
          if (b == null) { if (g.fits) continue; set(o, p, x); continue; }
          set(o, p, x); if (get(o, var) != null) set(o, var, g.depth < 6 ? g.msg(b) : make(b));
        } else set(o, p, x);
      }
    }
  }
  static final List<Cex> CEX = new ArrayList<>();
  static String unhex(String h) { StringBuilder b = new StringBuilder(); for (int i = 0; i + 4 <= h.length(); i += 4) b.append((char) Integer.parseInt(h.substring(i, i + 4), 16)); return b.toString(); }
  static boolean FOCUS = false;
  /** the round-trip domain needs nested parts; a generated message has them unless a factory knows no key */
  static boolean inDomain(Object o) {
    Msg m = msgOf(o);
    for (P p : m.props) {
      Object v = get(o, p);
      if (p.kind.equals("variant") || p.kind.equals("msg")) { if (v == null || !inDomain(v)) return false; }
      if (p.kind.equals("list") && p.el.kind.equals("msg") && v != null) for (Object x : (List<?>) v) if (!inDomain(x)) return false;
    }
    return true;
  }

  // ------------------------------------------------------------------ oracle: text forms, layout, decoding
  static String q(String s) {
    if (s == null) return "null";
    StringBuilder b = new StringBuilder("\"");
    for (int i = 0; i < s.length() && i < 400; i++) { char c = s.charAt(i); if (c >= 32 && c < 127 && c != '"' && c != '\\') b.append(c); else b.append(String.format("\\u%04x", (int) c)); }
    if (s.length() > 400) b.append("...").append(s.length()).append("#").append(s.hashCode());
    return b.append('"').toString();
  }
  /** canonical form of a value; norm: as it is after a round trip */
  static String dump(Object v, P p, boolean norm, boolean frames) {
    if (p.kind.equals("list")) {
      if (v == null) return norm ? "[]" : "null";
      StringBuilder b = new StringBuilder("["); for (Object x : (List<?>) v) b.append(dump(x, p.el, norm, frames)).append(';');
      return b.append(']').toString();
    }
    if (p.kind.equals("text")) return q(norm ? trim((String) v, p) : (String) v);
    if (p.kind.equals("dyn")) return q(norm && v == null ? "" : (String) v);
    if (v == null) return "null";
    if (v instanceof Float) return "f" + (norm ? Float.floatToRawIntBits((Float) v) : Float.floatToIntBits((Float) v));
    if (v instanceof Double) return "d" + (norm ? Double.doubleToRawLongBits((Double) v) : Double.doubleToLongBits((Double) v));
    if (v instanceof BinaryCodec) return dump(v, norm, frames);
    return v.getClass().getSimpleName().substring(0, 1) + v;
  }
  static String dump(Object o, boolean norm, boolean frames) {
    Msg m = msgOf(o); StringBuilder b = new StringBuilder(m.name).append('{');
    for (P p : m.props) if (frames || !p.computed()) b.append(p.name).append('=').append(dump(get(o, p), p, norm, frames)).append(", ");
    return b.append('}').toString();
  }
  static String show(Object o) { String s = dump(o, false, true); return s.length() > 3000 ? s.substring(0, 3000) + "..." : s; }
  static String trim(String s, P p) {
    if (s == null) return "";
    int i = 0, j = s.length();
    if (p.left) while (i < j && s.charAt(i) == p.pad) i++; else while (i < j && s.charAt(j - 1) == p.pad) j--;
    return s.substring(i, j);
  }
  static void wnum(ByteArrayOutputStream b, long v, int w, boolean le) { for (int i = 0; i < w; i++) b.write((int) (v >>> 8 * (le ? i : w - 1 - i)) & 255); }
  static long raw(Object v) {
    if (v instanceof Float) return Float.floatToRawIntBits((Float) v);
    if (v instanceof Double) return Double.doubleToRawLongBits((Double) v);
    if (v instanceof Character) return (Character) v;
    if (v instanceof Boolean) return (Boolean) v ? 1 : 0;
    return ((Number) v).longValue();
  }
  static final Function<byte[], Long> NOSVC = null;
  /** checksum functions by name; a missing name means no service */
  static Map<String, Function<byte[], Integer>> algs() {
    Map<String, Function<byte[], Integer>> m = new HashMap<>();
    m.put("CRC16", H::crc16); m.put("CRC32", H::crc32); m.put("SSE_BIN", H::sum); m.put("SZSE_BIN", H::sum); return m;
  }
  static Map<String, Function<byte[], Integer>> ALGS = algs();
  static int crc16(byte[] d) { int c = 0xffff; for (byte x : d) { c ^= x & 255; for (int i = 0; i < 8; i++) c = (c & 1) != 0 ? (c >>> 1) ^ 0xA001 : c >>> 1; } return c; }
  static int crc32(byte[] d) { int c = -1; for (byte x : d) { c ^= x & 255; for (int i = 0; i < 8; i++) c = (c & 1) != 0 ? (c >>> 1) ^ 0xEDB88320 : c >>> 1; } return ~c; }
  static int sum(byte[] d) { int c = 0; for (byte x : d) c += x & 255; return c & 255; }
  static void fix(ByteArrayOutputStream b, String s, P p) {
    byte[] u = s == null ? new byte[0] : s.getBytes(StandardCharsets.UTF_8); int k = Math.min(u.length, p.n);
    if (p.left) for (int i = k; i < p.n; i++) b.write(p.pad);
    b.write(u, 0, k);
    if (!p.left) for (int i = k; i < p.n; i++) b.write(p.pad);
  }
  static void ovalue(ByteArrayOutputStream b, P p, Object v, Object host, int start) {
    switch (p.kind) {
      case "num": wnum(b, raw(v), p.w, p.le); break;
      case "text": fix(b, (String) v, p); break;
      case "dyn": { byte[] u = v == null ? new byte[0] : ((String) v).getBytes(StandardCharsets.UTF_8); wnum(b, u.length, p.w, p.le); b.write(u, 0, u.length); break; }
      case "list": { List<?> l = v == null ? Collections.emptyList() : (List<?>) v; wnum(b, l.size(), p.w, p.le); for (Object x : l) ovalue(b, p.el, x, null, 0); break; }
      case "msg": case "variant": if (v != null) { byte[] x = bytes(v); b.write(x, 0, x.length); } break;
      case "length": { Object o = get(host, msgOf(host).prop(p.body)); wnum(b, o == null ? 0 : bytes(o).length, p.w, p.le); break; }
      case "checksum": { Function<byte[], Integer> f = ALGS.get(p.alg); wnum(b, f == null ? raw(v) : f.apply(b.toByteArray()), p.w, p.le); break; }
      default: throw new Error();
    }
  }
  /** the layout of a message */
  static byte[] bytes(Object o) {
    ByteArrayOutputStream b = new ByteArrayOutputStream();
    for (P p : msgOf(o).props) ovalue(b, p, get(o, p), o, 0);
    return b.toByteArray();
  }
  static final class In { byte[] d; int i; In(byte[] d) { this.d = d; } void need(int n) { if (n > d.length - i) throw new Stop("IOOBE"); } long num(int w, boolean le) { need(w); long v = 0; for (int k = 0; k < w; k++) v |= (long) (d[i + k] & 255) << 8 * (le ? k : w - 1 - k); i += w; return w == 8 ? v : (v << (64 - 8 * w)) >> (64 - 8 * w); } }
  static final class Stop extends RuntimeException { Stop(String s) { super(s, null, false, false); } }
  static Object dvalue(In in, P p, Object host) {
    switch (p.kind) {
      case "num": case "length": case "checksum": {
        long v = in.num(p.w, p.le); Class<?> t = p.type;
        if (t == float.class || t == Float.class) return Float.intBitsToFloat((int) v);
        if (t == double.class || t == Double.class) return Double.longBitsToDouble(v);
        return new G(0).boxed(t, v);
      }
      case "text": { in.need(p.n); String s = new String(in.d, in.i, p.n, StandardCharsets.UTF_8); in.i += p.n; return trim(s, p); }
      case "dyn": { int n = (int) in.num(p.w, p.le); if (n < 0) throw new Stop("?"); if (n == 0) return null; in.need(n); String s = new String(in.d, in.i, n, StandardCharsets.UTF_8); in.i += n; return s; }
      case "list": { int n = (int) in.num(p.w, p.le); if (n < 0) throw new Stop("?"); if (n == 0) return null; List<Object> l = new ArrayList<>(); for (int k = 0; k < n; k++) { if (l.size() > in.d.length + 1) throw new Stop("?"); l.add(dvalue(in, p.el, null)); } return l; }
      case "msg": return decode(in, MSGS.get(p.cls));
      case "variant": {
        Fac f = FACS.get(p.fac); P d = msgOf(host).prop(p.disc); Object k = get(host, d);
        if (f.kt == 'I') k = (int) raw(k); if (f.kt == 'H') k = (short) raw(k);
        String c = f.cases.get(k); if (c == null) throw new Stop("IAE");
        return decode(in, MSGS.get(c));
      }
      default: throw new Error();
    }
  }
  static Object decode(In in, Msg m) { Object o = make(m); for (P p : m.props) set(o, p, dvalue(in, p, o)); return o; }

  /** an independent copy through the properties */
  static Object copyV(Object v, P p) {
    if (v == null) return null;
    if (p.kind.equals("list")) { List<Object> l = new ArrayList<>(); for (Object x : (List<?>) v) l.add(copyV(x, p.el)); return l; }
    if (v instanceof BinaryCodec) return copy(v);
    if (v instanceof String) return new String((String) v);
    return v;
  }
  static BinaryCodec copy(Object o) { Msg m = msgOf(o); BinaryCodec c = make(m); for (P p : m.props) set(c, p, copyV(get(o, p), p)); return c; }

  // ------------------------------------------------------------------ buffers
  static ByteBuf out(G g) {
    switch (g.n(5)) { case 0: return Unpooled.buffer(0); case 1: return Unpooled.buffer(16); case 2: return Unpooled.buffer(1 << 14); case 3: return Unpooled.directBuffer(64); default: return Unpooled.buffer(); }
  }
  static byte[] rnd(G g, int n) { byte[] b = new byte[n]; g.r.nextBytes(b); if (g.one(4)) Arrays.fill(b, (byte) g.n(256)); return b; }
  /** a buffer whose readable bytes are d; other bytes before, and sometimes capacity with other bytes behind */
  static ByteBuf in(G g, byte[] d) {
    byte[] junk = g.one(2) ? new byte[0] : rnd(g, 1 + g.n(9)); byte[] spare = g.one(2) ? new byte[0] : rnd(g, 1 + g.n(64));
    ByteBuf b;
    switch (g.n(6)) {
      case 0: b = Unpooled.directBuffer(junk.length + d.length + spare.length + 1); break;
      case 1: { ByteBuf c = Unpooled.buffer(); c.writeBytes(junk).writeBytes(d).writeBytes(spare); return c.slice(junk.length, d.length); }
      case 2: { int k = g.n(d.length + 1); CompositeByteBuf c = Unpooled.compositeBuffer(); c.addComponent(true, Unpooled.wrappedBuffer(junk)); c.addComponent(true, Unpooled.wrappedBuffer(Arrays.copyOf(d, k))); c.addComponent(true, Unpooled.wrappedBuffer(Arrays.copyOfRange(d, k, d.length))); c.readerIndex(junk.length); return c; }
      default: b = Unpooled.buffer(Math.max(1, junk.length + d.length + (g.one(2) ? spare.length : 0)));
    }
    b.writeBytes(junk); b.writeBytes(d); int w = b.writerIndex();
    if (spare.length > 0) { b.writeBytes(spare); b.writerIndex(w); }
    b.readerIndex(junk.length); return b;
  }
  static byte[] all(ByteBuf b) { byte[] x = new byte[b.writerIndex()]; b.getBytes(0, x); return x; }
  static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (int i = 0; i < b.length && i < 2000; i++) s.append(String.format("%02x", b[i])); if (b.length > 2000) s.append("...(").append(b.length).append(" bytes)"); return s.toString(); }
  static byte[] tail(ByteBuf b, int from) { byte[] x = new byte[b.writerIndex() - from]; b.getBytes(from, x); return x; }
  static byte[] enc(BinaryCodec o, G g) { ByteBuf b = out(g); try { o.encode(b); return tail(b, 0); } finally { b.release(); } }

  /** other calls that a user may have made before: nothing of what follows may depend on them */
  static void noise(G g, Msg m, BinaryCodec same) {
    if (!g.one(3)) return;
    boolean f = g.fits;
    try {
      for (int i = g.n(4); i >= 0; i--) {
        g.fits = g.one(2);
        BinaryCodec o = same != null && g.one(2) ? same : g.msg(g.one(4) ? any(g) : m);
        switch (g.n(5)) {
          case 0: o.toString(); break;
          case 1: o.hashCode(); break;
          case 2: o.equals(g.one(2) ? o : g.msg(msgOf(o))); break;
          case 3: enc(o, g); break;
          case 4: { BinaryCodec x = make(msgOf(o)); byte[] d = g.one(2) ? rnd(g, g.n(200)) : enc(o, g); if (g.one(3)) d = Arrays.copyOf(d, g.n(d.length + 1)); ByteBuf b = Unpooled.wrappedBuffer(d); x.decode(b); break; }
        }
      }
    } catch (RuntimeException e) { /* judged elsewhere */ } finally { g.fits = f; }
  }
  static List<Msg> LIST;
  static Msg any(G g) { return LIST.get(g.n(LIST.size())); }

  // ------------------------------------------------------------------ the properties
  static void eq(String what, Object want, Object got) { if (!Objects.equals(want, got)) throw fail(what + "\n  expected " + lim(want) + "\n  but was  " + lim(got)); }
  static String lim(Object o) { String s = String.valueOf(o); return s.length() > 3000 ? s.substring(0, 3000) + "..." : s; }
  static String at(byte[] a, byte[] b) { int i = 0; while (i < a.length && i < b.length && a[i] == b[i]) i++; return " (first difference at byte " + i + ")"; }
  interface Chk { void run(G g, Msg m, StringBuilder log) throws Throwable; }

  static void C01(G g, Msg m, StringBuilder log) {
    g.fits = true; BinaryCodec o = g.msg(m); if (!inDomain(o)) return;
    noise(g, m, o); log.append("message ").append(show(o)).append('\n');
    Map<P, String> want = new LinkedHashMap<>(); for (P p : m.props) if (!p.computed()) want.put(p, dump(get(o, p), p, true, false));
    byte[] d = enc(o, g); log.append("encoded ").append(hex(d)).append('\n');
    for (P p : m.props) if (p.computed()) want.put(p, dump(get(o, p), p, true, false));
    BinaryCodec x = make(m); ByteBuf b = in(g, d); x.decode(b);
    for (P p : m.props) {
      // nested frames: their computed fields come back as computed
      String got = dump(get(x, p), p, true, false);
      eq("property " + p.name + " after encode and decode", want.get(p), got);
      if (p.kind.equals("text")) eq("padding of " + p.name, trim((String) get(x, p), p), get(x, p));
      if (p.kind.equals("text") && get(x, p) == null) throw fail("property " + p.name + " is null after decode");
    }
    b.release();
  }
  static void C02(G g, Msg m, StringBuilder log) {
    g.fits = g.one(2); BinaryCodec o = g.msg(m);
    noise(g, m, o); log.append("message ").append(show(o)).append('\n');
    byte[] want = bytes(o); byte[] d = enc(o, g);
    if (!Arrays.equals(want, d)) throw fail("encoded bytes" + at(want, d) + "\n  expected " + hex(want) + "\n  but was  " + hex(d));
    if (!g.fits || !inDomain(o)) return;
    String w = ndump(o, want);
    BinaryCodec x = make(m); ByteBuf b = in(g, want); x.decode(b); eq("decode of " + hex(want), w, dump(x, true, true)); b.release();
  }
  /** normal form of o as its layout has it (computed fields from the bytes) */
  static String ndump(Object o, byte[] d) { return dump(decode(new In(d), msgOf(o)), true, true); }
  static void C03(G g, Msg m, StringBuilder log) {
    g.fits = true; BinaryCodec o = g.msg(m), o2 = g.msg(m); if (!inDomain(o) || !inDomain(o2)) return;
    log.append("message ").append(show(o)).append('\n');
    byte[] junk = rnd(g, g.n(40)); int rd = g.n(junk.length + 1);
    ByteBuf e = Unpooled.buffer(); o.encode(e); byte[] d = tail(e, 0);
    noise(g, m, o);
    ByteBuf b = out(g); b.writeBytes(junk); b.readerIndex(rd);
    o.encode(b);
    log.append("buffer held ").append(hex(junk)).append(", reader index ").append(rd).append('\n');
    eq("reader index after encode", rd, b.readerIndex());
    byte[] a = all(b);
    if (a.length < junk.length || !Arrays.equals(junk, Arrays.copyOf(a, junk.length))) throw fail("encode changed earlier bytes: " + hex(a));
    if (!Arrays.equals(d, Arrays.copyOfRange(a, junk.length, a.length))) throw fail("encode appended other bytes than into an empty buffer\n  empty: " + hex(d) + "\n  held:  " + hex(Arrays.copyOfRange(a, junk.length, a.length)));
    o2.encode(b); byte[] d2 = tail(b, a.length);
    ByteBuf f = Unpooled.buffer(); o2.encode(f);
    if (!Arrays.equals(tail(f, 0), d2)) throw fail("second message in one buffer: other bytes appended");
    if (!Arrays.equals(a, Arrays.copyOf(all(b), a.length))) throw fail("encode of the second message changed earlier bytes");
    byte[] rest = rnd(g, g.n(30)); if (g.one(2)) b.writeBytes(rest);
    b.readerIndex(junk.length); byte[] before = all(b); int w = b.writerIndex();
    BinaryCodec x = make(m), y = make(m);
    x.decode(b); eq("bytes consumed by decode", d.length, b.readerIndex() - junk.length);
    y.decode(b); eq("bytes consumed by the second decode", d2.length, b.readerIndex() - junk.length - d.length);
    eq("writer index after decode", w, b.writerIndex());
    if (!Arrays.equals(before, all(b))) throw fail("decode changed the buffer");
    if (Arrays.equals(bytes(o), d)) eq("first of two messages", ndump(o, d), dump(x, true, true));
    if (Arrays.equals(bytes(o2), d2)) eq("second of two messages", ndump(o2, d2), dump(y, true, true));
    b.release();
  }
  static byte[] hostile(G g, Msg m) {
    boolean f = g.fits; g.fits = true; byte[] d;
    switch (g.n(7)) {
      case 0: d = rnd(g, g.n(400)); break;
      case 1: d = new byte[g.n(300)]; break;
      default: {
        d = bytes(g.msg(m));
        int k = g.n(5);
        for (int i = 0; i < k && d.length > 0; i++) {
          int p = g.n(d.length);
          switch (g.n(4)) {
            case 0: d[p] = (byte) g.n(256); break;
            case 1: { int w = new int[] {1, 2, 4, 8}[g.n(4)]; long v = g.num(w); boolean le = g.one(2); for (int j = 0; j < w && p + j < d.length; j++) d[p + j] = (byte) (v >>> 8 * (le ? j : w - 1 - j)); break; }
            case 2: d = Arrays.copyOf(d, g.n(d.length + 1)); break;
            default: for (int j = p; j < d.length && j < p + 4; j++) d[j] = (byte) (g.one(2) ? 255 : j == p && g.one(2) ? 0x7f : 0); break;
          }
        }
        if (g.one(4)) { int n = d.length; d = Arrays.copyOf(d, n + g.n(50)); }
      }
    }
    g.fits = f; return d;
  }
  static final class Out { String kind; Object o; int used; Throwable t; }
  static Out run(BinaryCodec x, ByteBuf b) {
    Out r = new Out(); int p = b.readerIndex(); r.o = x;
    try { x.decode(b); r.kind = "ok"; } catch (IndexOutOfBoundsException e) { r.kind = "IOOBE"; r.t = e; } catch (IllegalArgumentException e) { r.kind = "IAE"; r.t = e; } catch (Throwable e) { r.kind = String.valueOf(e); r.t = e; }
    r.used = b.readerIndex() - p; return r;
  }
  static void C04(G g, Msg m, StringBuilder log) {
    byte[] d = hostile(g, m); log.append("input ").append(hex(d)).append('\n');
    noise(g, m, null);
    ByteBuf b = in(g, d); int p = b.readerIndex(), w = b.writerIndex(); byte[] before = all(b);
    BinaryCodec x = g.one(4) ? dirty(g, m) : make(m);
    Out r = run(x, b);
    if (!r.kind.equals("ok") && !r.kind.equals("IOOBE") && !r.kind.equals("IAE")) throw fail("decode of arbitrary bytes: " + r.kind);
    eq("writer index", w, b.writerIndex());
    if (b.readerIndex() < p || b.readerIndex() > w) throw fail("reader index " + b.readerIndex() + " outside " + p + ".." + w);
    if (!Arrays.equals(before, all(b))) throw fail("decode changed the buffer");
    if (r.kind.equals("IAE")) {
      if (!hasVariant(m)) throw fail("IllegalArgumentException from a message without variant part: " + r.t);
      String k; try { decode(new In(d), m); k = "ok"; } catch (Stop s) { k = s.getMessage(); }
      if (k.equals("ok")) throw fail("IllegalArgumentException for a known discriminator: " + r.t);
    }
    b.release();
  }
  static void C05(G g, Msg m, StringBuilder log) {
    g.fits = true; BinaryCodec o = g.msg(m); if (!inDomain(o)) return;
    noise(g, m, null);
    byte[] d = enc(o, g); log.append("message ").append(show(o)).append("\nencoded ").append(hex(d)).append('\n');
    int tries = Math.min(d.length, 30);
    for (int i = 0; i < tries; i++) {
      int k = d.length <= 30 ? i : i < 3 ? d.length - 1 - i : i < 5 ? i : g.n(d.length);
      ByteBuf b;
      if (g.one(2)) { b = Unpooled.buffer(d.length + 1 + g.n(64)); b.writeBytes(d); b.writerIndex(k); }
      else if (g.one(2)) { b = Unpooled.buffer(d.length + 40); b.writeBytes(d, 0, k); }
      else b = in(g, Arrays.copyOf(d, k));
      Out r = run(g.one(4) ? dirty(g, m) : make(m), b);
      if (!r.kind.equals("IOOBE")) throw fail("decode of the first " + k + " of " + d.length + " bytes: " + (r.kind.equals("ok") ? "returned normally" : r.kind.equals("IAE") ? String.valueOf(r.t) : r.kind) + " (capacity " + b.capacity() + ")");
    }
  }
  static BinaryCodec dirty(G g, Msg m) {
    boolean f = g.fits; g.fits = g.one(2);
    try {
      BinaryCodec x = g.msg(m);
      if (g.one(2)) { try { x.decode(Unpooled.wrappedBuffer(hostile(g, m))); } catch (RuntimeException e) { } }
      if (g.one(6)) { try { enc(x, g); } catch (RuntimeException e) { } }
      return x;
    } finally { g.fits = f; }
  }
  static void C15(G g, Msg m, StringBuilder log) {
    byte[] d; if (g.one(2)) { g.fits = true; d = bytes(g.msg(m)); } else d = hostile(g, m);
    BinaryCodec x = make(m), y = dirty(g, m), z = null;
    try { z = dirty(g, m); } catch (RuntimeException e) { }
    log.append("input ").append(hex(d)).append("\ntarget ").append(show(y)).append('\n');
    ByteBuf b1 = in(g, d), b2 = in(g, d), b3 = in(g, d);
    Out r1 = run(x, b1), r2 = run(y, b2), r3 = z == null ? null : run(z, b3);
    for (Out r : new Out[] {r2, r3}) {
      if (r == null) continue;
      if (r1.kind.equals("ok") != r.kind.equals("ok")) throw fail("fresh target: " + r1.kind + ", used target: " + r.kind);
      if (!r1.kind.equals("ok")) continue;
      eq("bytes consumed", r1.used, r.used);
      eq("result of decoding into a used object", dump(x, false, true), dump(r.o, false, true));
      if (!x.equals(r.o)) throw fail("decoded objects are not equal");
    }
    // and once more into the same object
    if (r2.kind.equals("ok")) { ByteBuf b4 = in(g, d); Out r4 = run(y, b4); if (!r4.kind.equals("ok")) throw fail("second decode of the same bytes into one object: " + r4.kind); eq("decoding again into the same object", dump(x, false, true), dump(y, false, true)); }
  }
  static void C16(G g, Msg m, StringBuilder log) {
    g.fits = false; g.nulls = true; BinaryCodec o = g.msg(m); g.nulls = false;
    if (g.one(3)) unset(g, o, m);
    if (g.one(20)) { o = make(m); for (P p : m.props) if (p.kind.equals("msg")) set(o, p, make(MSGS.get(p.cls))); }
    log.append("message ").append(show(o)).append('\n');
    String before = dump(o, true == false, false); Map<P, Object> ids = new HashMap<>(); for (P p : m.props) ids.put(p, get(o, p));
    byte[] pre = rnd(g, g.n(20)); ByteBuf b = out(g); b.writeBytes(pre);
    if (g.one(4)) { byte[] d0 = enc(copy(o), g); }
    try { o.encode(b); } catch (Throwable t) { throw fail("encode failed: " + t); }
    byte[] d = tail(b, pre.length);
    eq("message after encode", before, dump(o, false, false));
    for (P p : m.props) if ((p.kind.equals("msg") || p.kind.equals("variant") || p.kind.equals("list")) && ids.get(p) != get(o, p) && !(p.kind.equals("list"))) throw fail("encode replaced " + p.name);
    noise(g, m, o);
    String mid = dump(o, false, false); eq("message after further calls", before, mid);
    int at = b.writerIndex();
    try { o.encode(b); } catch (Throwable t) { throw fail("second encode failed: " + t); }
    byte[] d2 = tail(b, at);
    if (!Arrays.equals(d, d2)) throw fail("second encode wrote other bytes" + at(d, d2) + "\n  first  " + hex(d) + "\n  second " + hex(d2));
    byte[] d3 = enc(o, g);
    if (!Arrays.equals(d, d3)) throw fail("third encode, into another buffer, wrote other bytes" + at(d, d3));
    BinaryCodec c = copy(o); byte[] d4 = enc(c, g);
    if (!Arrays.equals(d, d4)) throw fail("an equal message encodes to other bytes" + at(d, d4));
  }
  static void unset(G g, Object o, Msg m) { for (P p : m.props) if (g.one(2) && !p.type.isPrimitive() && !p.kind.equals("msg") && !p.kind.equals("num") && !p.computed()) set(o, p, null); }
  static void C06(G g, Msg m, StringBuilder log) {
    boolean frame = false; for (P p : m.props) frame |= p.computed(); if (!frame) return;
    ChecksumServiceFactory F = ChecksumServiceFactory.getInstance();
    Map<String, ChecksumService<?, ?>> saved = new LinkedHashMap<>(); for (String k : ALGS.keySet()) saved.put(k, F.getChecksumService(k));
    Map<String, Function<byte[], Integer>> algs = algs();
    try {
      for (String a : new ArrayList<>(algs.keySet())) {
        int k = g.n(4); if (k < 2) continue;
        F.removeChecksumService(a); algs.remove(a); log.append("service ").append(a).append(k == 2 ? " removed\n" : " replaced\n");
        if (k == 3) { int mul = g.r.nextInt() | 1; Function<byte[], Integer> f = x -> Arrays.hashCode(x) * mul; F.registry(new Svc(a, f)); algs.put(a, f); }
      }
      ALGS = algs;
      g.fits = g.one(2); BinaryCodec o = g.msg(m); noise(g, m, o);
      if (g.one(4)) for (P p : m.props) if (p.kind.equals("variant")) set(o, p, g.msg(g.one(2) ? m : any(g)));
      log.append("message ").append(show(o)).append('\n');
      byte[] junk = rnd(g, g.n(50)); ByteBuf b = out(g); b.writeBytes(junk); b.readerIndex(g.n(junk.length + 1));
      Map<P, Object> was = new HashMap<>(); for (P p : m.props) was.put(p, get(o, p));
      o.encode(b); byte[] d = tail(b, junk.length);
      log.append("frame at ").append(junk.length).append(": ").append(hex(d)).append('\n');
      // independently of the layout of the body: the body is what its own encode writes
      int pos = 0;
      for (P p : m.props) {
        if (p.kind.equals("length")) {
          Object bo = was.get(m.prop(p.body)); int n = bo == null ? 0 : enc((BinaryCodec) bo, g).length;
          eq("property " + p.name, (long) n, raw(get(o, p))); eq("field " + p.name, (long) n, at(d, pos, p)); pos += p.w;
        } else if (p.kind.equals("checksum")) {
          Function<byte[], Integer> f = algs.get(p.alg); pos = d.length - p.w;
          long want = f == null ? raw(was.get(p)) : f.apply(Arrays.copyOf(d, pos));
          eq("property " + p.name, want, raw(get(o, p))); eq("field " + p.name, want, at(d, pos, p));
        } else if (p.kind.equals("num")) pos += p.w;
      }
      // a frame behind another frame, and once more with stale values
      int s = b.writerIndex(); for (P p : m.props) if (p.kind.equals("length")) set(o, p, g.val(p, o, false));
      o.encode(b); byte[] d2 = tail(b, s); if (!Arrays.equals(d, d2)) throw fail("the same frame behind the first one: " + hex(d2));
    } finally {
      F.clearAllChecksumService(); for (ChecksumService<?, ?> x : saved.values()) if (x != null) F.registry(x);
      ALGS = algs();
    }
  }
  static long at(byte[] d, int i, P p) { In in = new In(d); in.i = i; return in.num(p.w, p.le); }
  static final class Svc implements ChecksumService<ByteBuf, Integer> {
    final String n; final Function<byte[], Integer> f;
    Svc(String n, Function<byte[], Integer> f) { this.n = n; this.f = f; }
    public Integer calc(ByteBuf b) { byte[] x = new byte[b.readableBytes()]; b.getBytes(b.readerIndex(), x); return f.apply(x); }
    public String algorithm() { return n; }
  }
  static final String[] CRCS = {"com.finproto.codec.Crc16ChecksumService", "com.finproto.codec.Crc32ChecksumService", "com.finproto.codec.SseBinChecksumService", "com.finproto.codec.SzseBinChecksumService"};
  static final String[] CNAMES = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"};
  static final Map<String, Object> SHARED = new HashMap<>();
  @SuppressWarnings("unchecked")
  static void C07(G g, Msg unused, StringBuilder log) throws Exception {
    int k = g.n(4);
    if (!SHARED.containsKey(CRCS[k]) || g.one(5)) SHARED.put(CRCS[k], Class.forName(CRCS[k]).getDeclaredConstructor().newInstance());
    ChecksumService<ByteBuf, Integer> s = (ChecksumService<ByteBuf, Integer>) SHARED.get(CRCS[k]);
    Function<byte[], Integer> f = algs().get(CNAMES[k]);
    int n = g.one(5) ? g.n(4) : g.one(50) ? 60000 + g.n(20000) : g.one(6) ? g.n(5000) : g.n(300); byte[] d = rnd(g, n);
    if (g.one(6) && !NUMS.isEmpty()) { long v = NUMS.get(g.n(NUMS.size())).longValue(); if (v >= 0 && v < 200000) d = rnd(g, (int) v); }
    if (g.one(FOCUS ? 400 : 5000)) { d = new byte[8421505 + g.n(600000)]; Arrays.fill(d, (byte) -1); log.append("bytes of 0xFF: ").append(d.length).append('\n'); }
    log.append(CNAMES[k]).append(" over ").append(hex(d)).append('\n');
    ByteBuf b = in(g, d); byte[] before = all(b); int r = b.readerIndex(), w = b.writerIndex();
    if (g.one(6)) b = b.asReadOnly();
    int want = f.apply(d);
    if (g.one(20)) {
      int good = g.n(8); log.append("after a calculation broken off by its buffer at byte ").append(good).append('\n');
      ByteBuf broken = new UnpooledHeapByteBuf(UnpooledByteBufAllocator.DEFAULT, 16, 16) {
        int left = good; private void count() { if (left-- <= 0) throw new IllegalStateException("broken buffer"); }
        @Override public short getUnsignedByte(int i) { count(); return (short) (i * 37 & 0xFF); }
        @Override public byte getByte(int i) { count(); return (byte) (i * 37); }
      };
      broken.writerIndex(16); try { s.calc(broken); } catch (RuntimeException e) { }
    }
    if (g.one(2000)) {
      log.append("in four threads\n"); final int[] wrong = new int[1]; Thread[] ts = new Thread[4];
      for (int i = 0; i < 4; i++) { final byte[] e = rnd(g, 200 + g.n(2000)); final int we = f.apply(e); ts[i] = new Thread(() -> { ByteBuf eb = Unpooled.wrappedBuffer(e); for (int j = 0; j < 20; j++) { Object got; try { got = s.calc(eb); } catch (RuntimeException x) { got = null; } if (!Objects.equals(we, got)) synchronized (wrong) { wrong[0]++; } } }); ts[i].start(); }
      for (Thread t : ts) t.join();
      if (wrong[0] > 0) throw fail("one service used by four threads gave a wrong checksum " + wrong[0] + " times");
    }
    eq("calc", want, s.calc(b));
    eq("calc again", want, s.calc(b));
    eq("reader index", r, b.readerIndex()); eq("writer index", w, b.writerIndex());
    if (!Arrays.equals(before, all(b))) throw fail("calc changed the buffer");
    eq("verify of the calculated value", true, s.verify(b, want));
    int other = g.one(2) ? want ^ (1 << g.n(32)) : g.r.nextInt();
    eq("verify of " + other, other == want, s.verify(b, other));
    eq("verify of null", false, s.verify(b, null));
    eq("reader index after verify", r, b.readerIndex()); eq("writer index after verify", w, b.writerIndex());
    eq("algorithm", CNAMES[k], s.algorithm());
  }
  static void C08(G g, Msg unused, StringBuilder log) throws Exception {
    ChecksumServiceFactory F = ChecksumServiceFactory.getInstance();
    Map<String, Object> model = new HashMap<>();
    Map<String, ChecksumService<?, ?>> saved = new LinkedHashMap<>(); for (String n : CNAMES) saved.put(n, F.getChecksumService(n));
    for (int i = 0; i < 4; i++) {
      Object s = F.getChecksumService(CNAMES[i]);
      if (s == null || !s.getClass().getName().equals(CRCS[i])) throw fail("initially registered under " + CNAMES[i] + ": " + s);
      model.put(CNAMES[i], s);
    }
    List<String> names = new ArrayList<>(Arrays.asList("CRC16", "CRC32", "SSE_BIN", "SZSE_BIN", "crc16", "", "X", "Aa", "BB", " CRC16", null)); names.addAll(STRS);
    try {
      for (int i = 0; i < 30; i++) {
        String n = names.get(g.n(names.size())); if (n != null && g.one(2)) n = new String(n);
        switch (g.n(5)) {
          case 0: case 1: { Object s = g.one(5) && n != null && saved.containsKey(n) ? saved.get(n) : new Svc(n, H::sum); log.append("registry(").append(q(n)).append(")\n"); boolean r = F.registry((ChecksumService<?, ?>) s); eq("registry(" + n + ")", !model.containsKey(n), r); if (r) model.put(n, s); break; }
          case 2: log.append("remove(").append(q(n)).append(")\n"); F.removeChecksumService(n); model.remove(n); break;
          case 3: if (g.one(4)) { log.append("clear\n"); F.clearAllChecksumService(); model.clear(); } break;
          default: break;
        }
        for (String x : names) if (F.getChecksumService(x) != model.get(x)) throw fail("lookup of " + q(x) + " answers " + (Object) F.getChecksumService(x) + " instead of " + model.get(x));
      }
    } finally { F.clearAllChecksumService(); for (ChecksumService<?, ?> x : saved.values()) if (x != null) F.registry(x); }
  }
  static Object bad(Fac f, G g) {
    for (;;) {
      Object k;
      switch (f.kt) {
        case 'S': { List<String> base = new ArrayList<>(); for (Object x : f.cases.keySet()) base.add((String) x); base.addAll(STRS); String s = base.get(g.n(base.size()));
          switch (g.n(9)) { case 0: k = null; break; case 1: k = ""; break; case 2: k = s + " "; break; case 3: k = " " + s; break; case 4: k = s.isEmpty() ? s : s.substring(0, s.offsetByCodePoints(s.length(), -1)); break; case 5: k = s.replace('0', 'O'); break; case 6: k = String.format("%03d", g.n(1000)); break; case 7: k = g.chars(4, 32); break; default: k = s; } break; }
        case 'I': k = g.one(20) ? null : (Object) (int) (g.one(3) ? ((Integer) new ArrayList<>(f.cases.keySet()).get(g.n(f.cases.size())) + g.n(5) - 2) : g.one(3) ? ((Integer) new ArrayList<>(f.cases.keySet()).get(g.n(f.cases.size())) ^ (1 << g.n(32))) : g.num(4)); break;
        default: k = g.one(20) ? null : (Object) (short) (g.one(3) ? g.n(8) : g.num(2)); break;
      }
      if (!f.cases.containsKey(k)) return k;
    }
  }
  static void expectCreate(Fac f, Object k, Object want) {
    Object o;
    try { o = create(f, k); } catch (IllegalArgumentException e) { if (want == null) return; throw fail("create(" + k + ") rejects a known discriminator: " + e); }
    if (o == null && f.local) return;
    if (want == null) throw fail("create(" + k + ") accepts an unknown discriminator: " + o);
    if (want instanceof String) {
      if (o == null || !o.getClass().getName().equals(want)) throw fail("create(" + k + ") gives " + (o == null ? "null" : o.getClass().getName()) + " instead of " + want);
      Msg m = MSGS.get(want); Object e = make(m);
      eq("create(" + k + ") is empty", dump(e, false, true), dump(o, false, true));
      for (P p : m.props) if (p.kind.equals("num")) { /* same */ }
      Object o2 = create(f, k); if (o2 == o) throw fail("create(" + k + ") gives the same object twice");
      for (P p : m.props) if (!(get(o, p) == null) && (p.kind.equals("list") || p.kind.equals("msg")) && get(o, p) == get(o2, p) ) throw fail("instances share " + p.name);
      G g = new G(7); g.fill(o, m); eq("another instance after filling one", dump(e, false, true), dump(create(f, k), false, true));
    } else if (o != want) throw fail("create(" + k + ") does not use the registered supplier");
  }
  static void viaFrame(Fac f, Object k, Object want, StringBuilder log) {
    // dispatch through the message that owns the factory
    for (Msg m : MSGS.values()) for (P p : m.props) if (p.kind.equals("variant") && p.fac.equals(f.id)) {
      G g = new G(11); g.fits = true; BinaryCodec o = g.msg(m); P d = m.prop(p.disc);
      if (k == null || k instanceof String && (((String) k).getBytes(StandardCharsets.UTF_8).length > d.n || !trim((String) k, d).equals(k))) return;
      set(o, d, g.disc(d, k)); if (k instanceof String) set(o, d, k);
      Msg bm = want instanceof String ? MSGS.get(want) : null;
      set(o, p, bm == null ? null : g.msg(bm));
      byte[] b = enc(o, g); byte[] b2 = Arrays.copyOf(b, b.length + 4000);
      BinaryCodec x = make(m);
      try { x.decode(Unpooled.wrappedBuffer(b2)); if (want == null) throw fail(m.name + " decodes discriminator " + k + " which is unknown"); }
      catch (IllegalArgumentException e) { if (want != null) throw fail(m.name + " rejects discriminator " + k + ": " + e); return; }
      Object body = get(x, p);
      if (want instanceof String && (body == null || !body.getClass().getName().equals(want))) throw fail(m.name + " decodes discriminator " + k + " to " + body);
    }
  }
  static Map<String, List<String>> initial = new HashMap<>();
  static void C09(G g, Fac f, StringBuilder log) throws Exception {
    log.append("factory ").append(f.id).append('\n');
    Map<Object, Object> model = new HashMap<>(f.cases);
    if (f.local) {
      for (Object k : f.cases.keySet()) { expectCreate(f, k, f.cases.get(k)); viaFrame(f, k, f.cases.get(k), log); }
      for (int i = 0; i < 20; i++) { Object k = bad(f, g); expectCreate(f, k, null); viaFrame(f, k, null, log); }
      return;
    }
    Object inst = facInst(f); Class<?> c = Class.forName(f.cls);
    if (c.getMethod("getInstance").invoke(null) != inst) throw fail("getInstance gives another object");
    Method reg = null, rem = null, mt = null;
    for (Method m : c.getMethods()) { if (m.getName().equals("register")) reg = m; if (m.getName().equals("remove") && m.getParameterCount() == 1) rem = m; if (m.getName().equals("getMsgType")) mt = m; }
    if (reg == null || rem == null) throw fail("no register or remove");
    reg.setAccessible(true); rem.setAccessible(true);
    boolean rev = reg.getParameterCount() == 3;
    for (Object k : f.cases.keySet()) expectCreate(f, k, f.cases.get(k));
    Object pick = new ArrayList<>(f.cases.keySet()).get(g.n(f.cases.size())); viaFrame(f, pick, f.cases.get(pick), log);
    for (int i = 0; i < 10; i++) { Object k = bad(f, g); expectCreate(f, k, null); viaFrame(f, k, null, log); }
    Map<Class<?>, Integer> rmod = new HashMap<>();
    if (rev) {
      for (Map.Entry<Object, String> e : f.cases.entrySet()) rmod.put(Class.forName(e.getValue()), (Integer) e.getKey());
      for (Class<?> x : rmod.keySet()) eq("getMsgType(" + x.getSimpleName() + ")", rmod.get(x), mt.invoke(inst, x));
      eq("getMsgType(Thread)", null, mt.invoke(inst, Thread.class));
      messageTypes(f, g);
    }
    List<Object> keys = new ArrayList<>(f.cases.keySet()); for (int i = 0; i < 6; i++) keys.add(bad(f, g));
    try {
      for (int i = 0; i < 25; i++) {
        Object k = keys.get(g.n(keys.size())); if (g.one(2)) k = again(k);
        if (g.one(2)) {
          BinaryCodec x = g.one(4) ? make(any(g)) : new Dummy(); Supplier<BinaryCodec> s = () -> x; log.append("register(").append(k).append(")\n");
          if (rev) { Class<?> cl = g.one(3) ? String.class : g.one(2) ? Dummy.class : Class.forName(new ArrayList<>(f.cases.values()).get(g.n(f.cases.size()))); reg.invoke(inst, cl, k, s); rmod.put(cl, (Integer) k); } else reg.invoke(inst, k, s);
          model.put(k, x);
        } else { log.append("remove(").append(k).append(")\n"); eq("remove(" + k + ")", model.containsKey(k), rem.invoke(inst, k)); model.remove(k); }
        for (Object x : keys) expectCreate(f, x, model.get(x));
        for (int j = 0; j < 3; j++) { Object x = bad(f, g); if (!keys.contains(x)) expectCreate(f, x, null); }
        if (rev) { for (Class<?> x : rmod.keySet()) eq("getMsgType(" + x.getSimpleName() + ")", rmod.get(x), mt.invoke(inst, x)); }
        for (Fac o : FACS.values()) if (o != f && !o.local && o.kt == f.kt && g.one(4)) { Object kk = k; if (!o.cases.containsKey(kk)) { try { create(o, kk); throw fail(o.id + " knows " + kk + " registered with " + f.id); } catch (IllegalArgumentException e) { } } }
      }
    } catch (InvocationTargetException e) { throw fail("factory operation failed: " + e.getCause()); }
    finally {
      for (Object k : model.keySet().toArray()) rem.invoke(inst, k);
      for (Map.Entry<Object, String> e : f.cases.entrySet()) { Msg m = MSGS.get(e.getValue()); Supplier<BinaryCodec> s = () -> make(m); if (rev) reg.invoke(inst, m.c, e.getKey(), s); else reg.invoke(inst, e.getKey(), s); }
    }
  }
  static Object again(Object k) { return k instanceof String ? new String((String) k) : k instanceof Integer ? (Object) new Integer((Integer) k) : k instanceof Short ? (Object) new Short((Short) k) : k; }
  static final class Dummy implements BinaryCodec { public void encode(ByteBuf b) { } public void decode(ByteBuf b) { } }
  static void messageTypes(Fac f, G g) throws Exception {
    Class<?> t = null; for (Class<?> x : Class.forName(f.cls).getClasses()) if (x.isEnum()) t = x;
    if (t == null) throw fail("no message type constants");
    Method from = t.getMethod("fromValue", int.class), gv = t.getMethod("getValue");
    eq("number of message type constants", f.names.size(), t.getEnumConstants().length);
    for (Object x : t.getEnumConstants()) { Integer v = f.names.get(((Enum<?>) x).name()); eq("value of " + x, v, gv.invoke(x)); if (from.invoke(null, v) != x) throw fail("fromValue(" + v + ") is not " + x); }
    for (int i = 0; i < 20; i++) { Object k = bad(f, g); if (k == null) continue; try { Object o = from.invoke(null, k); throw fail("fromValue(" + k + ") gives " + o); } catch (InvocationTargetException e) { if (!(e.getCause() instanceof IllegalArgumentException)) throw fail("fromValue(" + k + "): " + e.getCause()); } }
  }
  static Object change(G g, P p, Object v, Object host) {
    // a value of the property that differs from v
    for (int i = 0; i < 60; i++) {
      Object x;
      if (p.kind.equals("variant")) { Fac f = FACS.get(p.fac); List<String> cs = new ArrayList<>(f.cases.values()); x = g.one(6) ? null : g.msg(MSGS.get(cs.get(g.n(cs.size())))); }
      else if (p.kind.equals("msg")) x = g.one(6) ? null : v == null || g.one(2) ? g.msg(MSGS.get(p.cls)) : tweak(g, v);
      else if (v instanceof String && ((String) v).length() > 0 && g.one(2)) { String s = (String) v; switch (g.n(6)) { case 0: x = s + (g.one(2) ? " " : "\0"); break; case 1: x = " " + s; break; case 2: x = s.substring(0, s.offsetByCodePoints(s.length(), -1)); break; case 3: x = s.toLowerCase().equals(s) ? s.toUpperCase() : s.toLowerCase(); break; case 4: x = g.one(2) ? "" : null; break; default: x = "Aa".equals(s) ? "BB" : s.replace("Aa", "BB"); } }
      else if (v instanceof Long && g.one(2)) x = (Long) v ^ (1L << g.n(64));
      else if (v instanceof Integer && g.one(2)) x = (Integer) v ^ (1 << g.n(32));
      else if (v instanceof List && ((List<?>) v).size() > 0 && g.one(2)) { List<Object> l = new ArrayList<>((List<?>) v); switch (g.n(4)) { case 0: l.remove(l.size() - 1); break; case 1: l.add(l.get(0)); break; case 2: Collections.reverse(l); break; default: { int j = g.n(l.size()); l.set(j, change(g, p.el, l.get(j), null)); } } x = l; }
      else if (v == null && p.type == String.class) x = g.one(2) ? "" : g.val(p, host, false);
      else if (v == null && p.kind.equals("list")) x = g.one(2) ? new ArrayList<>() : g.val(p, host, false);
      else x = g.val(p, host, false);
      if (p.type.isPrimitive() && x == null) continue;
      if (!dump(x, p, false, true).equals(dump(v, p, false, true))) return x;
    }
    return v;
  }
  static Object tweak(G g, Object o) { Object c = copy(o); Msg m = msgOf(c); if (m.props.isEmpty()) return null; P p = m.props.get(g.n(m.props.size())); set(c, p, change(g, p, get(c, p), c)); return c; }
  static void C10(G g, Msg m, StringBuilder log) {
    g.fits = g.one(2); BinaryCodec a = g.msg(m); if (g.one(4)) unsetAll(g, a, m); if (g.one(30)) a = make(m);
    noise(g, m, a);
    log.append("message ").append(show(a)).append('\n');
    BinaryCodec b = copy(a); List<BinaryCodec> pool = new ArrayList<>(Arrays.asList(a, b));
    if (!m.props.isEmpty()) for (int i = 0; i < 5; i++) { BinaryCodec c = copy(a); P p = m.props.get(g.n(m.props.size())); set(c, p, change(g, p, get(c, p), c)); if (g.one(3)) { P p2 = m.props.get(g.n(m.props.size())); set(c, p2, change(g, p2, get(c, p2), c)); } if (g.one(4) && m.props.size() > 1) swap(g, c, m); pool.add(c); }
    pool.add(g.msg(m)); pool.add(make(m));
    if (g.one(2)) { BinaryCodec x = pool.get(g.n(pool.size())); try { x.hashCode(); x.encode(Unpooled.buffer()); } catch (RuntimeException e) { } }
    String before = dump(a, false, true);
    Map<BinaryCodec, Integer> hs = new IdentityHashMap<>();
    if (g.one(2)) for (BinaryCodec x : pool) hs.put(x, x.hashCode());
    // mutate after hashing: the hash must follow
    if (g.one(2) && !m.props.isEmpty()) { BinaryCodec x = pool.get(1 + g.n(pool.size() - 1)); P p = m.props.get(g.n(m.props.size())); x.hashCode(); x.equals(a); set(x, p, get(a, p)); hs.clear(); }
    for (BinaryCodec x : pool) {
      String dx = dump(x, false, true);
      if (!x.equals(x)) throw fail("not equal to itself: " + show(x));
      for (BinaryCodec y : pool) {
        boolean want = dx.equals(dump(y, false, true)), got = x.equals(y);
        if (want != got) throw fail("equals answers " + got + " for\n  " + show(x) + "\n  " + show(y));
        if (want && x.hashCode() != y.hashCode()) throw fail("equal messages with different hash codes:\n  " + show(x) + "\n  " + show(y));
      }
      if (hs.containsKey(x) && hs.get(x) != x.hashCode()) throw fail("hash code changes without a change of the message");
      eq("message after comparisons", dx, dump(x, false, true));
    }
    if (a.equals(null)) throw fail("equals(null)");
    for (Object o : new Object[] {"x", 1, new Object(), make(any(g)), g.msg(any(g)), sub(m)}) if (o != null && o.getClass() != m.c && (a.equals(o) || make(m).equals(o))) throw fail("equals an object of type " + o.getClass().getName());
    eq("message after comparisons", before, dump(a, false, true));
  }
  static Object sub(Msg m) { return new Dummy(); }
  static void swap(G g, Object o, Msg m) { P p = m.props.get(g.n(m.props.size())); List<P> l = new ArrayList<>(); for (P q : m.props) if (q != p && q.get.getGenericReturnType().equals(p.get.getGenericReturnType())) l.add(q); if (l.isEmpty()) return; P q = l.get(g.n(l.size())); Object v = get(o, p); set(o, p, get(o, q)); set(o, q, v); }
  static void unsetAll(G g, Object o, Msg m) { for (P p : m.props) if (!p.type.isPrimitive() && g.one(2)) set(o, p, null); }
  static void C11(G g, Msg m, StringBuilder log) {
    g.fits = false; BinaryCodec o = g.msg(m); if (g.one(4)) unsetAll(g, o, m); if (g.one(8)) o = make(m);
    log.append("message ").append(show(o)).append('\n');
    if (m.props.isEmpty()) return;
    noise(g, m, o);
    for (int i = 0; i < 12; i++) {
      P p = m.props.get(i < m.props.size() && g.one(2) ? i : g.n(m.props.size()));
      Map<P, Object> was = new HashMap<>(); Map<P, String> wd = new HashMap<>();
      for (P x : m.props) { Object v = get(o, x); was.put(x, v); wd.put(x, dump(v, x, false, true)); }
      Object v = g.one(6) && !p.type.isPrimitive() && !p.kind.equals("num") ? null : p.kind.equals("variant") ? g.msg(any(g)) : change(g, p, was.get(p), o);
      String vd = p.kind.equals("list") || !(v instanceof BinaryCodec) ? dump(v, p, false, true) : dump(v, false, true);
      set(o, p, v); Object r = get(o, p);
      log.append("set ").append(p.name).append(" = ").append(vd).append('\n');
      boolean same = p.type.isPrimitive() ? dump(r, p, false, true).equals(vd) && (!(r instanceof Float) || Float.floatToRawIntBits((Float) r) == Float.floatToRawIntBits((Float) v)) : p.kind.equals("list") ? (r == v || r != null && dump(r, p, false, true).equals(vd)) : r == v || v instanceof String && v.equals(r) || v instanceof Number && v.equals(r);
      if (!same) throw fail("get " + p.name + " after set gives " + r);
      eq("value given to set " + p.name, vd, v instanceof BinaryCodec ? dump(v, false, true) : dump(v, p, false, true));
      for (P x : m.props) if (x != p) { Object y = get(o, x); if (!(y == was.get(x) || x.type.isPrimitive() || y instanceof String && y.equals(was.get(x)) || y instanceof List) || !dump(y, x, false, true).equals(wd.get(x))) throw fail("setting " + p.name + " changes " + x.name + " from " + wd.get(x) + " to " + dump(y, x, false, true)); }
      if (g.one(6)) noise(g, m, null);
    }
  }
  static void C17(G g, Msg m, StringBuilder log) {
    g.fits = false; BinaryCodec o = g.msg(m); if (g.one(4)) unsetAll(g, o, m); if (g.one(10)) o = make(m);
    if (g.one(4)) noise(g, m, o);
    log.append("message ").append(show(o)).append('\n');
    StringBuilder w = new StringBuilder(m.shortName()).append(" ["); boolean first = true;
    for (P p : m.props) { if (!first) w.append(", "); first = false; w.append(p.name).append('=').append(String.valueOf(get(o, p))); }
    String before = dump(o, false, true), s;
    try { s = o.toString(); } catch (Throwable t) { throw fail("toString failed: " + t); }
    eq("toString", w.append(']').toString(), s); eq("message after toString", before, dump(o, false, true));
    if (!m.props.isEmpty()) { P p = m.props.get(g.n(m.props.size())); set(o, p, change(g, p, get(o, p), o)); StringBuilder w2 = new StringBuilder(m.shortName()).append(" ["); first = true; for (P x : m.props) { if (!first) w2.append(", "); first = false; w2.append(x.name).append('=').append(String.valueOf(get(o, x))); } eq("toString after a change of " + p.name, w2.append(']').toString(), o.toString()); }
  }
  static final BinaryCodec HELP = new Dummy();
  static void C12(G g, Msg unused, StringBuilder log) {
    g.fits = false; P p = new P("text", "x", new String[] {"" + (g.one(8) ? 0 : g.one(6) ? 100 + g.n(300) : 1 + g.n(40)), "" + new int[] {32, 48, 0, 42, 120, 46, 10, 127}[g.n(8)], g.one(2) ? "left" : "right"});
    boolean dflt = g.one(4); if (dflt) { p.pad = ' '; p.left = false; }
    String s = g.text(p.n, p.pad); byte[] pre = rnd(g, g.n(6)); ByteBuf b = out(g); b.writeBytes(pre);
    log.append("text ").append(q(s)).append(" width ").append(p.n).append(" pad ").append((int) p.pad).append(p.left ? " left" : " right").append(dflt ? " (default)" : "").append('\n');
    if (dflt) HELP.writeFixedString(b, s, p.n); else HELP.writeFixedString(b, s, p.n, p.pad, p.left);
    ByteArrayOutputStream w = new ByteArrayOutputStream(); fix(w, s, p); byte[] d = tail(b, pre.length);
    if (!Arrays.equals(w.toByteArray(), d)) throw fail("written bytes\n  expected " + hex(w.toByteArray()) + "\n  but was  " + hex(d));
    if (!Arrays.equals(pre, Arrays.copyOf(all(b), pre.length))) throw fail("earlier bytes changed");
    byte[] raw = g.one(3) ? rnd(g, p.n) : d;
    if (g.one(4)) { raw = new byte[p.n]; for (int i = 0; i < raw.length; i++) raw[i] = (byte) (g.one(3) ? p.pad : g.one(3) ? ' ' : 33 + g.n(90)); }
    log.append("field ").append(hex(raw)).append('\n');
    byte[] more = Arrays.copyOf(raw, raw.length + g.n(5)); ByteBuf i = in(g, more); int at = i.readerIndex();
    String r = dflt ? HELP.readFixedString(i, p.n) : HELP.readFixedString(i, p.n, p.pad, p.left);
    eq("bytes taken", p.n, i.readerIndex() - at);
    eq("text read", q(trim(new String(raw, StandardCharsets.UTF_8), p)), q(r));
    if (p.n > 0) { byte[] less = Arrays.copyOf(raw, g.n(p.n)); ByteBuf k = in(g, less); try { HELP.readFixedString(k, p.n, p.pad, p.left); throw fail("read of a field beyond the input returned"); } catch (IndexOutOfBoundsException e) { } }
    String t = g.text(20, p.pad); if (t != null) eq("trimByChar(" + q(t) + ")", q(trim(t, p)), q(BinaryCodec.trimByChar(t, p.pad, p.left)));
    // a field of a real message
    Msg m = any(g); List<P> ts = new ArrayList<>(); for (P x : m.props) if (x.kind.equals("text")) ts.add(x);
    if (ts.isEmpty()) return;
    P tp = ts.get(g.n(ts.size())); BinaryCodec o = g.msg(m); for (P x : m.props) if (x.kind.equals("msg")) continue;
    byte[] e = enc(o, g), want = bytes(o); if (e.length != want.length) throw fail("encoded length of " + show(o) + ": " + e.length + " instead of " + want.length);
    int pos = 0; for (P x : m.props) {
      if (x.kind.equals("num") || x.computed()) { pos += x.w; continue; }
      if (!x.kind.equals("text")) break;
      if (!Arrays.equals(Arrays.copyOfRange(want, pos, pos + x.n), Arrays.copyOfRange(e, pos, pos + x.n))) throw fail("field " + x.name + " of " + show(o) + " is written as " + hex(Arrays.copyOfRange(e, pos, pos + x.n)));
      pos += x.n;
    }
  }

  // ------------------------------------------------------------------ bitmaps
  static com.finproto.bitmap.BitMap bm(int size) throws Exception { return (com.finproto.bitmap.BitMap) Class.forName("com.finproto.bitmap." + BMN.get(size)).getDeclaredConstructor().newInstance(); }
  static final Map<Integer, String> BMN = new LinkedHashMap<>();
  static { BMN.put(8, "ByteBitMap"); BMN.put(16, "ShortBitMap"); BMN.put(32, "IntBitMap"); BMN.put(64, "LongBitMap"); }
  static final int[] SIZES = {8, 16, 32, 64};
  static String bits(com.finproto.bitmap.BitMap m, int n) { StringBuilder b = new StringBuilder(); for (int i = 0; i < n; i++) b.append(m.get(i) ? '1' : '0'); return b.toString(); }
  static void C13(G g, Msg unused, StringBuilder log) throws Exception {
    int n = SIZES[g.n(4)]; com.finproto.bitmap.BitMap m = bm(n), other = bm(n); boolean[] model = new boolean[n];
    log.append(BMN.get(n)).append('\n'); eq("new bitmap", bits(m, n), G.rep('0', n)); eq("bitCount", n, m.bitCount());
    if (g.one(3)) { for (int i = 0; i < n; i++) if (g.one(2)) { other.set(i); } }
    String ot = bits(other, n);
    for (int k = 0; k < 60; k++) {
      int p = g.one(8) ? (g.one(2) ? 0 : n - 1) : g.n(n);
      if (g.one(2)) { m.set(p); model[p] = true; log.append("set ").append(p).append('\n'); } else if (g.one(2)) { m.clear(p); model[p] = false; log.append("clear ").append(p).append('\n'); }
      StringBuilder w = new StringBuilder(); for (boolean x : model) w.append(x ? '1' : '0');
      eq("positions", w.toString(), bits(m, n)); eq("positions, read again", w.toString(), bits(m, n)); eq("bitCount", n, m.bitCount());
    }
    eq("another bitmap", ot, bits(other, n));
  }
  /** known findings: what is read after a transfer, as a function of what was in the bitmap; see known-findings */
  static final Map<String, Integer> KNOWN = new HashMap<>();   // "ShortBitMap/0" -> position that is read instead, or -1 for always false
  static final Set<String> HIT = new TreeSet<>();
  static void C14(G g, Msg unused, StringBuilder log) throws Exception {
    int n = SIZES[g.n(4)]; String cn = BMN.get(n); com.finproto.bitmap.BitMap m = bm(n), t = bm(n);
    boolean[] model = new boolean[n]; int dens = g.n(4);
    for (int i = 0; i < n; i++) if (dens == 0 ? g.one(n) : dens == 1 ? !g.one(n) : g.one(2)) { m.set(i); model[i] = true; }
    for (int i = 0; i < n; i++) if (g.one(2)) t.set(i);
    String a = bits(m, n); log.append(cn).append(' ').append(a).append(" into ").append(bits(t, n)).append('\n');
    byte[] pre = rnd(g, g.n(9)); ByteBuf b = out(g); b.writeBytes(pre); b.readerIndex(pre.length);
    m.write(b); eq("bitmap after write", a, bits(m, n));
    if (!Arrays.equals(pre, Arrays.copyOf(all(b), pre.length)) || b.readerIndex() != pre.length) throw fail("write changed earlier content");
    byte[] d = tail(b, pre.length); log.append("written ").append(hex(d)).append('\n');
    b.writeBytes(rnd(g, g.n(12))); int w = b.writerIndex();
    t.read(b); eq("bytes read", d.length, b.readerIndex() - pre.length); eq("writer index", w, b.writerIndex()); eq("original", a, bits(m, n));
    for (int i = 0; i < n; i++) {
      Integer k = KNOWN.get(cn + "/" + i);
      if (k == null) { if (t.get(i) != model[i]) throw fail("position " + i + " reads " + t.get(i) + " after transfer: " + bits(t, n)); }
      else if (t.get(i) == model[i]) continue;
      else { boolean kn = k >= 0 && model[k]; if (t.get(i) != kn) throw fail("position " + i + " reads " + t.get(i) + " after transfer (neither the original nor the known finding): " + bits(t, n)); HIT.add(cn + "/" + i); }
    }
  }

  // ------------------------------------------------------------------ concurrency: objects of different threads do not disturb each other
  static void parallel(String prop, G g, List<Msg> ms, StringBuilder log) throws Throwable {
    if (!Arrays.asList("C01", "C02", "C16", "C07", "C10", "C17").contains(prop)) return;
    final Throwable[] bad = new Throwable[1]; Thread[] ts = new Thread[4]; long base = g.r.nextLong();
    Msg pick = ms.isEmpty() ? null : ms.get(g.n(ms.size()));
    for (int i = 0; i < ts.length; i++) { final int k = i; ts[i] = new Thread(() -> { StringBuilder l = new StringBuilder(); try { for (int j = 0; j < 60; j++) { if (prop.equals("C07")) { synchronized (SHARED) { } return; } one(prop, new G(base + k * 1000 + j), pick, null, l = new StringBuilder()); } } catch (Throwable t) { synchronized (bad) { if (bad[0] == null) { bad[0] = fail("in one of several threads: " + t.getMessage() + "\n" + l); } } } }); ts[i].start(); }
    for (Thread t : ts) t.join();
    if (bad[0] != null) throw bad[0];
  }

  static void one(String prop, G g, Msg m, Fac f, StringBuilder log) throws Throwable {
    // in some cases a checksum service is missing
    if (m != null && !prop.equals("C06") && Thread.currentThread() == mainThread && Math.floorMod(g.seed, 9L) == 4) {
      String a = new ArrayList<>(ALGS.keySet()).get((int) Math.floorMod(g.seed / 9, (long) ALGS.size())); ChecksumServiceFactory F = ChecksumServiceFactory.getInstance(); ChecksumService<?, ?> x = F.getChecksumService(a);
      if (x != null) {
        Map<String, Function<byte[], Integer>> was = ALGS; ALGS = new LinkedHashMap<>(was); ALGS.remove(a); F.removeChecksumService(a); log.append("service ").append(a).append(" removed\n");
        try { two(prop, g, m, f, log); } finally { F.registry(x); ALGS = was; }
        return;
      }
    }
    two(prop, g, m, f, log);
  }
  static void two(String prop, G g, Msg m, Fac f, StringBuilder log) throws Throwable {
    switch (prop) {
      case "C01": C01(g, m, log); break; case "C02": C02(g, m, log); break; case "C03": C03(g, m, log); break; case "C04": C04(g, m, log); break;
      case "C05": C05(g, m, log); break; case "C06": C06(g, m, log); break; case "C07": C07(g, m, log); break; case "C08": C08(g, m, log); break;
      case "C09": C09(g, f, log); break; case "C10": C10(g, m, log); break; case "C11": C11(g, m, log); break; case "C12": C12(g, m, log); break;
      case "C13": C13(g, m, log); break; case "C14": C14(g, m, log); break; case "C15": C15(g, m, log); break; case "C16": C16(g, m, log); break; case "C17": C17(g, m, log); break;
      default: throw new Error(prop);
    }
  }
  static volatile long started = 0; static volatile String current = ""; static volatile StringBuilder curLog;
  static void report(String unit, long seed, StringBuilder log, String msg) {
    PrintStream o = System.out;
    o.println("FAIL " + unit + " seed=" + seed);
    for (String l : (msg + "\n" + log).split("\n")) o.println("  | " + l);
    o.println("END"); o.flush();
  }
  static void readDict(String path) throws Exception {
    for (String l : Files.readAllLines(Paths.get(path), StandardCharsets.UTF_8)) {
      if (l.startsWith("n ")) NUMS.add(Long.valueOf(l.substring(2)));
      else if (l.startsWith("s ")) { StringBuilder b = new StringBuilder(); String h = l.substring(2); for (int i = 0; i + 4 <= h.length(); i += 4) b.append((char) Integer.parseInt(h.substring(i, i + 4), 16)); String s = b.toString(); try { StandardCharsets.UTF_8.newEncoder().encode(java.nio.CharBuffer.wrap(s)); STRS.add(s); } catch (java.nio.charset.CharacterCodingException e) { } }
      else if (l.startsWith("A ")) { Cex c = new Cex(); c.msg = l.substring(2); CEX.add(c); }
      else if (l.startsWith("a ")) { String[] w = l.split(" ", 3); CEX.get(CEX.size() - 1).vals.put(w[1], w[2]); }
      else if (l.equals("f")) FOCUS = true;
      else if (l.startsWith("k ")) { String[] w = l.split(" "); KNOWN.put(w[1], Integer.valueOf(w[2])); }
    }
  }
  /** H contracts property seed seconds dict [unit ...]   or   H contracts property seed - dict unit (replays one case) */
  public static void main(String[] av) throws Throwable {
    String prop = av[1]; long seed = Long.parseLong(av[2]); boolean replay = av[3].equals("-"); double secs = replay ? 0 : Double.parseDouble(av[3]);
    readDict(av[4]);
    try { load(av[0]); } catch (Fail e) { report("load", 0, new StringBuilder(), e.getMessage()); System.out.println("CASES 0"); return; } catch (LinkageError e) { report("load", 0, new StringBuilder(), String.valueOf(e.getCause() == null ? e : e.getCause())); System.out.println("CASES 0"); return; }
    LIST = new ArrayList<>(MSGS.values());
    List<String> units = new ArrayList<>(Arrays.asList(av).subList(5, av.length));
    boolean byMsg = !Arrays.asList("C07", "C08", "C09", "C12", "C13", "C14").contains(prop);
    if (units.isEmpty()) { if (prop.equals("C09")) units.addAll(FACS.keySet()); else if (byMsg) units.addAll(MSGS.keySet()); else units.add("all"); }
    if (prop.equals("C06")) units.removeIf(u -> { boolean x = false; for (P p : MSGS.get(u).props) x |= p.computed(); return !x; });
    Thread w = new Thread(() -> { for (;;) { try { Thread.sleep(500); } catch (InterruptedException e) { } long s = started; if (s != 0 && System.nanoTime() - s > 20_000_000_000L) { StackTraceElement[] t = mainThread.getStackTrace(); if (ours(t, 200)) report(current.split(" ")[0], Long.parseLong(current.split(" ")[1]), new StringBuilder(String.valueOf(curLog)), "does not terminate within 20 s, at " + Arrays.toString(Arrays.copyOf(t, Math.min(8, t.length)))); System.out.println("CASES " + cases); System.out.flush(); Runtime.getRuntime().halt(0); } } });
    w.setDaemon(true); mainThread = Thread.currentThread(); w.start();
    long t0 = System.nanoTime(), end = t0 + (long) (secs * 1e9); Set<String> failed = new HashSet<>(); int round = 0;
    do {
      for (String u : units) {
        if (failed.contains(u)) continue;
        Msg m = byMsg ? MSGS.get(u) : null; Fac f = prop.equals("C09") ? FACS.get(u) : null;
        int per = replay ? 1 : prop.equals("C09") ? 1 : byMsg ? (round == 0 ? 6 : 20) : 500;
        for (int i = 0; i < per; i++) {
          long s = replay ? seed : seed * 1000003L + u.hashCode() * 31L + round * 100L + i; if (!byMsg && !replay) s = seed * 1000003L + round * 1000L + i;
          G g = new G(s); g.big = (s & 15) == 7 ? 1 : FOCUS && (s & 3) == 1 ? 2 : 0;
          StringBuilder log = new StringBuilder(); curLog = log; current = u + " " + s; started = System.nanoTime();
          try { one(prop, g, m, f, log); cases++; }
          catch (VirtualMachineError e) {
            if (e instanceof OutOfMemoryError) {  // once more, alone, on an empty heap: only what happens again counts
              if (!ours(e.getStackTrace(), 6)) continue;
              e = null; log = new StringBuilder(); curLog = log; System.gc(); G h = new G(s); h.big = g.big;
              try { one(prop, h, m, f, log); continue; } catch (OutOfMemoryError x) { if (!ours(x.getStackTrace(), 6)) continue; e = x; } catch (Throwable x) { continue; }
            }
            failed.add(u); report(u, s, log, String.valueOf(e)); break; }
          catch (Throwable e) { failed.add(u); report(u, s, log, e instanceof Fail ? e.getMessage() : "unexpected " + e + " at " + Arrays.toString(Arrays.copyOf(e.getStackTrace(), Math.min(5, e.getStackTrace().length)))); break; }
          finally { started = 0; }
          if (System.nanoTime() > end && round > 0) break;
        }
        if (System.nanoTime() > end && round > 0 || failed.size() >= 8) break;
      }
      if (!replay && byMsg && failed.isEmpty()) { List<Msg> ms = new ArrayList<>(); for (String u : units) ms.add(MSGS.get(u)); StringBuilder log = new StringBuilder(); try { parallel(prop, new G(seed * 77 + round), ms, log); } catch (Throwable e) { failed.add("threads"); report("threads", seed * 77 + round, log, String.valueOf(e.getMessage())); } }
      round++;
    } while (!replay && System.nanoTime() < end && failed.size() < 8);
    for (String h : HIT) System.out.println("KNOWN " + h);
    System.out.println("CASES " + cases); System.out.flush(); System.exit(0);
  }
  /** a frame of the code under test among the first n */
  static boolean ours(StackTraceElement[] t, int n) { for (int i = 0; i < t.length && i < n; i++) if (t[i].getClassName().startsWith("com.finproto.")) return true; return false; }
  static volatile long cases = 0; static Thread mainThread;
}
