import io.netty.buffer.*;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;

/** Small functions over the instructions and library methods that the verifier models: each is run by the JVM and by
 *  the verifier (tools/conform.py), and the answers are compared. */
@SuppressWarnings("all")
public class Conf {
  // ---- instructions
  static int iarith(int a, int b) { return (a + b) * 31 - (a - b) * 7 + -a; }
  static int idiv(int a, int b) { return a / b; }
  static int irem(int a, int b) { return a % b; }
  static int ishl(int a, int b) { return a << b; }
  static int ishr(int a, int b) { return a >> b; }
  static int iushr(int a, int b) { return a >>> b; }
  static int ibits(int a, int b) { return (a & b) ^ (a | ~b); }
  static int i2b(int a, int b) { return (byte) a * 3 + (byte) (a + b); }
  static int i2s(int a, int b) { return (short) a - (short) (a * b); }
  static int i2c(int a, int b) { return (char) a + (char) (a ^ b); }
  static long larith(long a, long b) { return (a + b) * 31 - (a - b) * 7 + -a; }
  static long ldiv(long a, long b) { return a / b; }
  static long lrem(long a, long b) { return a % b; }
  static long lshl(long a, long b) { return a << (int) b; }
  static long lshr(long a, long b) { return a >> (int) b; }
  static long lushr(long a, long b) { return a >>> (int) b; }
  static long lbits(long a, long b) { return (a & b) ^ (a | ~b); }
  static int lcmp(long a, long b) { return a < b ? 1 : a > b ? 2 : a == b ? 3 : 4; }
  static int l2i(long a, long b) { return (int) a ^ (int) (b >>> 32); }
  static long i2l(int a, int b) { return (long) a * b; }
  static int icmp(int a, int b) { return (a < b ? 1 : 0) + (a <= b ? 2 : 0) + (a == b ? 4 : 0) + (a != b ? 8 : 0) + (a > b ? 16 : 0) + (a >= b ? 32 : 0); }
  static int izero(int a, int b) { return (a < 0 ? 1 : 0) + (a <= 0 ? 2 : 0) + (a == 0 ? 4 : 0) + (a != 0 ? 8 : 0) + (a > 0 ? 16 : 0) + (a >= 0 ? 32 : 0); }
  static int tswitch(int a, int b) { switch (a) { case -1: return 5; case 0: return b; case 1: return b + 1; case 2: b++; case 3: return b * 2; default: return -b; } }
  static int lswitch(int a, int b) { switch (a) { case -2147483648: return 1; case 127: return 2; case 100000: return 3; case 65535: return 4; } return b; }
  static int compound(int a, int b) { byte x = (byte) a; x += b; x <<= 1; short y = x; y ^= a; y++; return x * 1000 + y; }
  static int charinc(int a, int b) { char c = (char) a; c++; c -= b; return c; }
  static boolean bool(int a, int b) { boolean p = a > b, q = a == 0; p ^= q; p |= b == 1; return p && !q; }
  static int inc(int a, int b) { int c = a++ + ++a - b--; return c * 31 + a - b; }
  static int arr(int a, int b) { int[] x = {1, 2, 3, a}; x[1] += b; x[3]--; return x[0] + x[1] * 3 + x[3] * 5 + x.length; }
  static int arrIndex(int a, int b) { int[] x = {7, 8, 9}; return x[a] + b; }
  static int arrStore(int a, int b) { byte[] x = new byte[4]; x[a & 3] = (byte) b; return x[0] + 2 * x[1] + 4 * x[2] + 8 * x[3]; }
  static int arrNew(int a, int b) { byte[] x = new byte[a & 255]; return x.length; }
  static int arrLong(int a, int b) { long[] x = {a, b}; x[0] *= x[1]; return (int) (x[0] >> 32); }
  static int arrCopy(int a, int b) { int[] x = {a, b, 3, 4}; int[] y = new int[4]; System.arraycopy(x, 1, y, 0, 3); return y[0] + 7 * y[1] + 49 * y[2] + y[3]; }
  static int arrFill(int a, int b) { byte[] x = new byte[3]; Arrays.fill(x, (byte) a); return x[0] + x[1] + x[2]; }
  static int arrCopyOf(int a, int b) { byte[] x = {(byte) a, (byte) b, 3}; byte[] y = Arrays.copyOf(x, 5); byte[] z = Arrays.copyOfRange(x, 1, 3); return y[0] + 3 * y[1] + 9 * y[4] + 27 * z[0] + z[1]; }
  static int unroll(int a, int b) { int s = a; for (int i = 0; i < 9; i++) { if ((s & 1) != 0) s = s >>> 1 ^ b; else s >>>= 1; } return s; }
  static int nested(int a, int b) { int s = 0; for (int i = 0; i < 3; i++) { for (int j = i; j < 4; j++) { if (j == 2) continue; s = s * 3 + a + j; if (i == 2) break; } } return s + b; }
  static int exc(int a, int b) { try { return 100 / a; } catch (ArithmeticException e) { return b; } }
  static int fin(int a, int b) { int r = 0; try { if (a > b) return 1; r = 10 / b; } catch (ArithmeticException e) { r = -5; } finally { r += 3; } return r; }
  static int thrown(int a, int b) { if (a == b) throw new IllegalArgumentException("x" + a); if (a < b) throw new IllegalStateException(); return a; }
  static int npe(int a, int b) { List<Integer> l = a > b ? null : new ArrayList<>(); return l.size(); }
  static int synch(int a, int b) { Object o = new Object(); synchronized (o) { if (a > 0) return b; } return a; }
  // ---- boxes and Math
  static int box(int a, int b) { Integer x = a, y = b; return x.equals(y) ? 1 : x.compareTo(y) > 0 ? 2 : 3; }
  static int boxHash(int a, int b) { Integer x = a; Long y = (long) b; Short s = (short) a; Byte c = (byte) b; return x.hashCode() + 3 * y.hashCode() + 5 * s.hashCode() + 7 * c.hashCode(); }
  static int boxL(long a, long b) { return Long.hashCode(a) ^ Long.hashCode(b) ^ Boolean.hashCode(a > b); }
  static int boxEqMixed(int a, int b) { Object x = a, y = (long) a, z = (short) b; return (x.equals(y) ? 1 : 0) + (z.equals((short) b) ? 2 : 0) + (z.equals(b) ? 4 : 0); }
  static int minmax(int a, int b) { return Math.min(a, b) - Math.max(a, b) * 2 + Math.abs(a); }
  static long lminmax(long a, long b) { return Math.min(a, b) - Math.max(a, b) * 2 + Math.abs(b); }
  static int floor(int a, int b) { return Math.floorMod(a, b) * 3 + Math.floorDiv(a, b); }
  static int unsigned(int a, int b) { return Byte.toUnsignedInt((byte) a) + Short.toUnsignedInt((short) b) + (int) (Integer.toUnsignedLong(a) >>> 33); }
  static int compare(int a, int b) { return Integer.signum(Integer.compare(a, b)) + 3 * Integer.signum(Long.compare(b, a)) ; }
  static int bitsOf(int a, int b) { return Integer.reverseBytes(a) ^ Short.reverseBytes((short) b); }
  static long lbitsOf(long a, long b) { return Long.reverseBytes(a) ^ b; }
  static int objEq(int a, int b) { Integer x = a == 0 ? null : (Integer) a; Integer y = b == 0 ? null : (Integer) b; return (Objects.equals(x, y) ? 1 : 0) + Objects.hashCode(x); }
  static int objHash(int a, int b) { return Objects.hash(a, (long) b, null, (short) a); }
  static int arrHash(int a, int b) { return Arrays.hashCode(new Object[] {a, null, b}); }
  static int optional(int a, int b) { Integer x = a > 0 ? (Integer) a : null; return Optional.ofNullable(x).map(v -> v + 1).orElse(b); }
  static int optThrow(int a, int b) { Integer x = a > b ? (Integer) a : null; return Optional.ofNullable(x).orElseThrow(() -> new IllegalArgumentException("none")); }
  // ---- lists and maps
  static int list(int a, int b) { List<Integer> l = new ArrayList<>(); l.add(a); l.add(b); l.add(7); return l.get(1) * 3 + l.size() + (l.isEmpty() ? 1 : 0) + l.get(2); }
  static int listIdx(int a, int b) { List<Integer> l = new ArrayList<>(); l.add(b); l.add(2); return l.get(a); }
  static int listEq(int a, int b) { List<Integer> l = new ArrayList<>(), m = new ArrayList<>(); l.add(a); l.add(2); m.add(b); m.add(2); return l.equals(m) ? 1 : 0; }
  static int listIter(int a, int b) { List<Integer> l = new ArrayList<>(); l.add(a); l.add(b); int s = 0; for (int x : l) s = s * 31 + x; Iterator<Integer> it = l.iterator(); it.next(); return s + it.next(); }
  static int listHash(int a, int b) { List<Integer> l = new ArrayList<>(); l.add(a); l.add(b); return l.hashCode(); }
  static int asList(int a, int b) { int s = 0; for (Integer x : Arrays.asList(a, b, 3)) s = s * 5 + x; return s; }
  static int map(int a, int b) { Map<Integer, Integer> m = new HashMap<>(); m.put(1, a); m.put(2, b); Integer old = m.put(1, 5); return old + (m.containsKey(3) ? 1 : 0) + m.get(2) * 3 + m.getOrDefault(9, 11) + (m.remove(1) == null ? 0 : 1) + (m.get(1) == null ? 100 : 0); }
  static int mapKey(int a, int b) { Map<Integer, Integer> m = new HashMap<>(); m.put(a, 1); m.put(b, 2); return m.get(a); }
  static int mapAbsent(int a, int b) { Map<String, Integer> m = new HashMap<>(); m.putIfAbsent("x", a); Integer r = m.putIfAbsent("x", b); m.computeIfAbsent("y", k -> b); return r + 3 * m.get("x") + 7 * m.get("y"); }
  static int mapStr(int a, int b) { Map<String, Integer> m = new HashMap<>(); m.put("k1", a); m.put("k2", b); m.remove("k1"); m.put("k1", 4); return m.get("k1") + m.get("k2"); }
  static int frozen(int a, int b) { List<Integer> l = a > b ? Collections.emptyList() : a == b ? Arrays.asList(1, 2) : new ArrayList<>(); l.add(5); return l.size(); }
  static int frozen2(int a, int b) { List<Integer> l = a > b ? Collections.emptyList() : a == b ? Collections.singletonList(a) : new ArrayList<>(); l.clear(); return l.size(); }
  static int addAll(int a, int b) { List<Integer> l = new ArrayList<>(Arrays.asList(a, b)); l.addAll(l); l.forEach(x -> { if (x == 0) throw new IllegalStateException(); }); return l.size() * 31 + l.get(3); }
  static int enumMap(int a, int b) { Map<E, Integer> m = new EnumMap<>(E.class); m.put(E.B, a); m.put(E.C, b); return m.get(a > b ? E.B : E.C); }
  static int enumName(int a, int b) { E e = a > b ? E.A : E.B; return e.name().length() + (e.toString().equals("A") ? 10 : 0) + E.valueOf("C").ordinal(); }
  static int enumSwitch(int a, int b) { E e = a > b ? E.A : a == b ? E.B : E.C; switch (e) { case A: return 1; case B: return 2; default: return 3; } }
  static int exact(int a, int b) { return Math.addExact(a, b) ^ Math.multiplyExact(a, 3); }
  static int rot(int a, int b) { return Integer.rotateLeft(a, b) ^ Integer.rotateRight(b, 7); }
  static int strs(int a, int b) { String s = a > b ? "abc" : "abd"; return s.hashCode() + s.indexOf('b') + (s.startsWith("ab") ? 1 : 0) + (s.endsWith("c") ? 2 : 0) + (s.contains("bd") ? 4 : 0); }
  static int sbuild(int a, int b) { StringBuilder s = new StringBuilder("x"); s.append("yz").append('c'); return s.toString().equals("xyzc") ? s.length() : -1; }
  static int mapIter(int a, int b) { Map<String, Integer> m = new LinkedHashMap<>(); m.put("k1", a); m.put("k2", b); int s = 0; for (Map.Entry<String, Integer> e : m.entrySet()) s = s * 31 + e.getValue() + e.getKey().length(); return s + m.size() + (m.isEmpty() ? 1 : 0); }
  static int ternBox(int a, int b) { Integer x = a > b ? Integer.valueOf(a) : null; try { int y = a > 0 ? x : 7; return y; } catch (NullPointerException e) { return -1; } }
  static int refEq(int a, int b) { Object p = new P(a), q = a > b ? p : new P(a); return p == q ? 1 : p.equals(q) ? 2 : 3; }
  static int multi(int a, int b) { int[][] m = new int[2][3]; m[1][2] = a; m[0] = new int[] {b, 1}; return m[1][2] + m[0][0] + m[0].length; }
  static int instance(int a, int b) { Object o = a > b ? "s" : a == b ? (Object) 5 : new int[] {1}; return (o instanceof String ? 1 : 0) + (o instanceof Number ? 2 : 0) + (o instanceof Comparable ? 4 : 0) + (o instanceof int[] ? 8 : 0); }
  static int labelled(int a, int b) { int s = 0; outer: for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { if (i * j == 6) break outer; if (j > i) continue outer; s += a * i + b * j; } return s; }
  static int dowhile(int a, int b) { int i = 0, s = a; do { s = s * 2 + b; i += 3; } while (i < 8); return s; }
  static int resource(int a, int b) throws Exception { int[] c = {0}; try (AutoCloseable r = () -> c[0] += 7) { if (a > b) throw new IllegalStateException(); c[0] += 1; } catch (IllegalStateException e) { c[0] += 100; } return c[0]; }
  static int nestTry(int a, int b) { int r = 0; for (int i = 0; i < 3; i++) { try { if (i == 1) continue; if (a == i) throw new RuntimeException(); r += i; } catch (RuntimeException e) { r += 50; break; } finally { r = r * 2 + b; } } return r; }
  static int nullKey(int a, int b) { Map<String, Integer> m = a > b ? new HashMap<>() : new java.util.concurrent.ConcurrentHashMap<>(); m.put("q", 2); String k = a == 0 ? null : "q"; Integer r = m.get(k); m.put("r", b == 0 ? null : (Integer) b); return r == null ? -1 : r; }
  static int nullKey2(int a, int b) { Map<E, Integer> m = new EnumMap<>(E.class); m.put(E.B, 2); E k = a == 0 ? null : E.B; Integer r = m.get(k); m.put(b == 0 ? null : E.A, 1); return r == null ? -1 : r; }
  // ---- lambdas
  static int lambda(int a, int b) { IntBinaryOperator f = (x, y) -> x * 2 - y; return f.applyAsInt(a, b); }
  static int capture(int a, int b) { int[] s = {0}; Consumer<Integer> c = x -> s[0] += x * b; c.accept(a); c.accept(2); return s[0]; }
  static int compose(int a, int b) { Function<Integer, Integer> f = x -> x + b; return f.andThen(x -> x * 3).apply(a); }
  static int ctor(int a, int b) { Supplier<ArrayList<Integer>> s = ArrayList::new; List<Integer> l = s.get(); l.add(a); return l.get(0) + b; }
  static int widen(int a, int b) { ToLongFunction<Integer> f = x -> x; LongBinaryOperator g = Math::max; return (int) g.applyAsLong(f.applyAsLong(a), b); }
  static int pred(int a, int b) { Predicate<Integer> p = x -> x > b; return p.negate().test(a) ? 1 : p.and(x -> x < 10).test(a) ? 2 : 3; }
  // ---- streams
  static int stream(int a, int b) { return Stream.of(a, b, 3).map(x -> x * 2).filter(x -> x != 6).mapToInt(Integer::intValue).sum(); }
  static int range(int a, int b) { return IntStream.range(0, 5).map(i -> i * a + b).sum(); }
  static int collect(int a, int b) { List<Integer> l = Stream.of(a, b).collect(Collectors.toList()); return l.size() * 100 + l.get(0) - l.get(1); }
  static int anyMatch(int a, int b) { return (Stream.of(a, b).anyMatch(x -> x == 0) ? 1 : 0) + (IntStream.of(a, b).allMatch(x -> x > 0) ? 2 : 0); }
  // ---- buffers
  static ByteBuf buf() { return Unpooled.buffer(64); }
  static long rest(ByteBuf b) { long h = b.readableBytes(); for (int i = b.readerIndex(); i < b.writerIndex(); i++) h = h * 257 + b.getByte(i); return h; }
  static long wInts(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeIntLE(b); return rest(x); }
  static long wShorts(int a, int b) { ByteBuf x = buf(); x.writeShort(a); x.writeShortLE(b); x.writeByte(a); x.writeMedium(b); return rest(x); }
  static long wLongs(long a, long b) { ByteBuf x = buf(); x.writeLong(a); x.writeLongLE(b); return rest(x); }
  static long wMisc(int a, int b) { ByteBuf x = buf(); x.writeBoolean(a > b); x.writeChar(a); x.writeZero(3); x.writeBytes(new byte[] {(byte) b, 2}); x.writeBytes(new byte[] {1, 2, (byte) a}, 1, 2); return rest(x); }
  static int rShort(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeIntLE(b); return x.readShort() + 3 * x.readShortLE() + 5 * x.readUnsignedShort() + 7 * x.readUnsignedShortLE(); }
  static long rInt(int a, int b) { ByteBuf x = buf(); x.writeLong(a * 7L); x.writeLongLE(b * 9L); return x.readInt() + 3L * x.readUnsignedInt() + 5L * x.readIntLE() + 7L * x.readUnsignedIntLE(); }
  static long rByte(int a, int b) { ByteBuf x = buf(); x.writeInt(a); return x.readByte() + 3 * x.readUnsignedByte() + (x.readBoolean() ? 5 : 0) + x.readUnsignedByte(); }
  static long rLong(long a, long b) { ByteBuf x = buf(); x.writeLongLE(a); x.writeLong(b); return x.readLong() - x.readLongLE(); }
  static long swap(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeInt(b); x.readByte(); return x.readInt() * 31L + x.readableBytes() + x.readerIndex() * 7 + x.writerIndex() * 11; }
  static long getSet(int a, int b) { ByteBuf x = buf(); x.writeLong(0); x.setInt(1, a); x.setShortLE(5, b); x.setByte(0, b); return x.getInt(0) * 3L + x.getShortLE(4) + x.getUnsignedByte(7) + rest(x); }
  static long under(int a, int b) { ByteBuf x = buf(); x.writeShort(a); return a > b ? x.readInt() : x.readShort(); }
  static long getOut(int a, int b) { ByteBuf x = Unpooled.wrappedBuffer(new byte[] {1, 2, 3, 4}); return x.getShort(a) + b; }
  static long slice(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeInt(b); ByteBuf y = x.slice(2, 4); ByteBuf z = x.readSlice(3); return y.readInt() * 3L + z.readableBytes() + z.readByte() + rest(x); }
  static long sliceNeg(int a, int b) { ByteBuf x = buf(); x.writeInt(b); return x.slice(1, Math.min(a, 3)).readableBytes(); }
  static long skip(int a, int b) { ByteBuf x = buf(); x.writeInt(b); x.skipBytes(a); return rest(x); }
  static long seek(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeInt(b); x.markReaderIndex(); x.readInt(); x.resetReaderIndex(); x.readerIndex(1); return rest(x); }
  static long truncate(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeInt(b); x.writerIndex(5); x.writeByte(9); return rest(x); }
  static long wmark(int a, int b) { ByteBuf x = buf(); x.writeByte(1); x.markWriterIndex(); x.writeInt(a); x.resetWriterIndex(); x.writeShort(b); return rest(x); }
  static long readInto(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeInt(b); byte[] y = new byte[3]; x.readBytes(y); return y[0] + 3 * y[1] + 9 * y[2] + rest(x); }
  static long getInto(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeInt(b); byte[] y = new byte[3]; x.getBytes(2, y); return y[0] + 3 * y[1] + 9 * y[2] + rest(x); }
  static long wbuf(int a, int b) { ByteBuf x = buf(), y = buf(); y.writeInt(a).writeShort(b); y.readByte(); x.writeByte(5); x.writeBytes(y); return rest(x) * 31 + y.readableBytes(); }
  static long readable(int a, int b) { ByteBuf x = buf(); x.writeShort(a); return (x.isReadable() ? 1 : 0) + (x.isReadable(2) ? 2 : 0) + (x.isReadable(3) ? 4 : 0); }
  static long each(int a, int b) { ByteBuf x = buf(); x.writeInt(a); int[] s = {0}; int r = x.forEachByte(v -> { s[0] = s[0] * 3 + v; return v != 0; }); return s[0] * 10L + r; }
  static long utilBytes(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.readByte(); byte[] y = ByteBufUtil.getBytes(x); return y.length + y[0] * 3 + y[2]; }
  static long nio(int a, int b) { ByteBuf x = buf(); x.writeInt(a).writeByte(b); x.readByte(); java.nio.ByteBuffer n = x.nioBuffer(); long s = n.remaining(); while (n.hasRemaining()) s = s * 31 + n.get(); return s; }
  static long crc32(int a, int b) { java.util.zip.CRC32 c = new java.util.zip.CRC32(); c.update(new byte[] {(byte) a, (byte) (a >> 8), (byte) b}); c.update(b); return c.getValue(); }
  // ---- text (constants only)
  static int text(int a, int b) { String s = "abc"; return s.length() + (s.isEmpty() ? 1 : 0); }
  static int charAt(int a, int b) { return "xyz".charAt(1) + a; }
  static int sub(int a, int b) { return "hello".substring(1, 3).length() + (("he" + "llo").equals("hello") ? 1 : 0); }
  static int utf8(int a, int b) { return "a\u00e9\u20ac".getBytes(java.nio.charset.StandardCharsets.UTF_8).length; }
  static int strSwitch(int a, int b) { String s = a > b ? "one" : a == b ? "two" : "zzz"; switch (s) { case "one": return 1; case "two": return 2; default: return 3; } }
  static int nullOrEmpty(int a, int b) { String s = a == 0 ? null : a == 1 ? "" : "q"; return io.netty.util.internal.StringUtil.isNullOrEmpty(s) ? 1 : 0; }
  // ---- objects
  static class P { int x; P n; P(int x) { this.x = x; } int f() { return x; } }
  static class Q extends P { Q(int x) { super(x + 1); } int f() { return super.f() * 2; } }
  static int virt(int a, int b) { P p = a > b ? new P(a) : new Q(b); p.n = p; p.n.x += 3; return p.f() + (p instanceof Q ? 1 : 0); }
  static int cast(int a, int b) { Object o = a > b ? new P(a) : "s"; return ((P) o).x; }
  enum E { A, B, C; E next() { return values()[(ordinal() + 1) % 3]; } }
  static int enums(int a, int b) { E e = a > b ? E.A : E.C; return e.next().ordinal() + (e == E.C ? 10 : 0); }
  interface I { int v(); default int w() { return v() * 2; } }
  static int deflt(int a, int b) { I i = () -> a + 1; return i.w() - i.v() + b; }
  static int st = 5;
  static int statics(int a, int b) { int o = st; st = a; int r = st + o + b; st = 5; return r; }
  // ---- second views
  static long dupIndex(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeInt(b); x.readShort(); ByteBuf d = x.duplicate(); int v = d.readInt(); return v * 31L + d.readerIndex() * 100 + x.readerIndex() * 10 + d.writerIndex(); }
  static long dupGet(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeInt(b); x.readShort(); return x.duplicate().getInt(2) * 3L + x.slice().getInt(2); }
  static long dupSeek(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeInt(b); ByteBuf d = x.duplicate(); d.readerIndex(4); return d.readInt() * 10L + d.readableBytes() + x.readableBytes(); }
  static long readOnly(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeInt(b); ByteBuf d = x.asReadOnly(); return d.readInt() * 100L + d.readerIndex() * 10 + x.readerIndex(); }
  static long sliceIndex(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.writeInt(b); x.readShort(); ByteBuf d = x.slice(); return d.readerIndex() * 1000 + d.writerIndex() * 100 + x.slice(4, 4).readerIndex() + x.slice(4, 4).getInt(0) * 7L; }
  static long copySet(int a, int b) { ByteBuf x = buf(); x.writeInt(a); ByteBuf c = x.copy(); x.setInt(0, b); return c.getInt(0) * 5L + x.getInt(0); }
  static long sliceSet(int a, int b) { ByteBuf x = buf(); x.writeInt(a); ByteBuf c = x.slice(); x.setInt(0, b); return c.getInt(0) * 5L + x.getInt(0); }
  static long lrot(long a, long b) { return Long.rotateLeft(a, (int) b) ^ Long.rotateRight(a, (int) b + 3) ^ Long.reverse(b) ^ Long.reverseBytes(a) + Long.bitCount(b); }
  static int irot(int a, int b) { return Integer.rotateLeft(a, b) ^ Integer.rotateRight(a, b + 3) ^ Integer.reverse(b) ^ Integer.reverseBytes(a) + Integer.bitCount(b); }
  static int srev(int a, int b) { return Short.reverseBytes((short) a) * 7 + Short.compare((short) a, (short) b); }
  // ---- loops left by a test for equality
  static int eqExit(int a, int b) { String s = "..x...".substring(a & 3); int e = s.length(); while (true) { if (e == 0 || s.charAt(e - 1) != '.') return e; e--; } }
  // ---- reference counts
  static long refs1(int a, int b) { ByteBuf x = Unpooled.buffer(); x.writeInt(a); ByteBuf r = x.readRetainedSlice(2); int v = r.readShort(); boolean end = r.release(); return v * 10L + (end ? 1 : 0) + x.readShort(); }
  static long refs2(int a, int b) { ByteBuf x = Unpooled.buffer(); x.writeInt(a); ByteBuf c = x.copy(); boolean end = x.release(); return c.readInt() * 10L + (end ? 1 : 0) + (c.release() ? 1 : 0); }
  static long refs3(int a, int b) { ByteBuf x = Unpooled.buffer(); x.writeInt(a).writeInt(b); x.retain(); boolean e1 = x.release(); ByteBuf y = x.readBytes(4); boolean e2 = y.release(); long v = x.readInt(); return v * 4 + (e1 ? 1 : 0) + (e2 ? 2 : 0); }
  static long refs4(int a, int b) { ByteBuf x = Unpooled.buffer(); x.writeInt(a); x.readSlice(2).release(); return x.readShort(); }
  // ---- lists and maps
  static int addAll2(int a, int b) { List<Integer> l = new ArrayList<>(), m = new ArrayList<>(); if (a > 0) m.add(b); boolean c = l.addAll(m); return l.size() * 2 + (c ? 1 : 0); }
  static int mapCopy(int a, int b) { Map<Integer, String> m = new HashMap<>(); m.put(a, "x"); Map<Integer, String> n = new HashMap<>(m); n.put(b, "y"); return (m.containsKey(b) ? 1 : 0) + (n.containsKey(a) ? 2 : 0) + (n.get(a).equals("x") ? 4 : 0); }
  static int zeroNeg(int a, int b) { ByteBuf x = buf(); x.writeZero(-1); return 1; }
  static int ensureNeg(int a, int b) { ByteBuf x = buf(); x.ensureWritable(a % 50); return 1; }
  static int iterAt(int a, int b) { List<Integer> l = Arrays.asList(1, 2, 3); return l.listIterator(a & 1).next(); }
  static int viewSet(int a, int b) { ByteBuf x = buf(); x.writeInt(a); x.slice().setInt(0, b); return x.getInt(0); }
  static int wrapFull(int a, int b) { ByteBuf x = Unpooled.wrappedBuffer(new byte[] {1, 2}); x.writeByte(a); return x.readableBytes(); }
}
