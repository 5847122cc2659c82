package stub;
import java.util.*; import java.util.function.*;
/** java.util.stream.IntStream over a range of numbers or over a stream */
public class java_util_stream_IntStream {
  final int a, b; final java_util_stream_Stream<?> up; final ToIntFunction<Object> f;
  java_util_stream_IntStream(int a, int b, java_util_stream_Stream<?> up, ToIntFunction<Object> f) { this.a = a; this.b = b; this.up = up; this.f = f; }
  public static java_util_stream_IntStream of(int... x) { return new java_util_stream_IntStream(0, x.length, null, null).map(i -> x[i]); }
  public static java_util_stream_IntStream range(int a, int b) { return new java_util_stream_IntStream(a, b, null, null); }
  public static java_util_stream_IntStream rangeClosed(int a, int b) { if (b == Integer.MAX_VALUE) throw new UnsupportedOperationException(); return new java_util_stream_IntStream(a, b + 1, null, null); }
  public void forEach(IntConsumer c) {
    if (this.up != null) this.up.forEach(x -> c.accept(this.f.applyAsInt(x)));
    else { int end = this.b; for (int i = this.a; i < end; i++) c.accept(i); }
  }
  public void forEachOrdered(IntConsumer c) { forEach(c); }
  public java_util_stream_IntStream sequential() { return this; }
  public <R> java_util_stream_Stream<R> mapToObj(IntFunction<? extends R> g) {
    List<R> l = new ArrayList<>(); forEach(i -> l.add(g.apply(i))); return new java_util_stream_Stream<R>(null, l, null, null, null);
  }
  public java_util_stream_Stream<Integer> boxed() { return mapToObj(i -> i); }
  public java_util_stream_IntStream map(IntUnaryOperator g) { return new java_util_stream_IntStream(0, 0, boxed(), x -> g.applyAsInt((Integer) x)); }
  public java_util_stream_IntStream filter(IntPredicate g) { return new java_util_stream_IntStream(0, 0, boxed().filter(x -> g.test(x)), x -> (Integer) x); }
  public boolean anyMatch(IntPredicate p) { boolean[] r = new boolean[1]; forEach(x -> { if (p.test(x)) r[0] = true; }); return r[0]; }
  public boolean allMatch(IntPredicate p) { boolean[] r = {true}; forEach(x -> { if (!p.test(x)) r[0] = false; }); return r[0]; }
  public boolean noneMatch(IntPredicate p) { return !anyMatch(p); }
  public long count() { long[] r = new long[1]; forEach(x -> r[0]++); return r[0]; }
  public int sum() { int[] r = new int[1]; forEach(x -> r[0] += x); return r[0]; }
  public int reduce(int e, IntBinaryOperator g) { int[] r = {e}; forEach(x -> r[0] = g.applyAsInt(r[0], x)); return r[0]; }
}
