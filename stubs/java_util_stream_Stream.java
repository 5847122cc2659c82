package stub;
import java.util.*; import java.util.function.*;
/** java.util.stream.Stream over an array or a list: elements in encounter order, functions assumed free of side effects on the source */
public class java_util_stream_Stream<T> {
  final Object[] arr; final List<T> src; final java_util_stream_Stream<Object> up; final Function<Object, T> map; final Predicate<Object> filter;
  java_util_stream_Stream(Object[] arr, List<T> src, java_util_stream_Stream<Object> up, Function<Object, T> map, Predicate<Object> filter) { this.arr = arr; this.src = src; this.up = up; this.map = map; this.filter = filter; }
  public static <T> java_util_stream_Stream<T> of(T[] a) { return new java_util_stream_Stream<T>(a, null, null, null, null); }
  public static <T> java_util_stream_Stream<T> of(Object a) { return new java_util_stream_Stream<T>(new Object[] {a}, null, null, null, null); }
  @SuppressWarnings("unchecked") public void forEach(Consumer<? super T> c) {
    if (this.map != null) this.up.forEach(x -> c.accept(this.map.apply(x)));
    else if (this.filter != null) this.up.forEach(x -> { if (this.filter.test(x)) c.accept((T) x); });
    else if (this.src != null) this.src.forEach(c);
    else for (Object x : this.arr) c.accept((T) x);
  }
  public void forEachOrdered(Consumer<? super T> c) { forEach(c); }
  public java_util_stream_Stream<T> sequential() { return this; }
  @SuppressWarnings("unchecked") public <R> java_util_stream_Stream<R> map(Function<? super T, ? extends R> f) { return new java_util_stream_Stream<R>(null, null, (java_util_stream_Stream<Object>) this, (Function<Object, R>) (Function<?, ?>) f, null); }
  @SuppressWarnings("unchecked") public java_util_stream_Stream<T> filter(Predicate<? super T> p) { return new java_util_stream_Stream<T>(null, null, (java_util_stream_Stream<Object>) this, null, (Predicate<Object>) (Predicate<?>) p); }
  public java_util_stream_Stream<T> peek(Consumer<? super T> c) { return map(x -> { c.accept(x); return x; }); }
  @SuppressWarnings("unchecked") public Optional<T> findFirst() {
    Object[] hold = new Object[1]; int[] found = new int[1];
    forEach(x -> { if (found[0] == 0) { hold[0] = x; found[0] = 1; } });
    return found[0] == 0 ? Optional.empty() : Optional.of((T) hold[0]);
  }
  public Optional<T> findAny() { return findFirst(); }
  public boolean anyMatch(Predicate<? super T> p) { boolean[] r = new boolean[1]; forEach(x -> { if (p.test(x)) r[0] = true; }); return r[0]; }
  public boolean allMatch(Predicate<? super T> p) { boolean[] r = {true}; forEach(x -> { if (!p.test(x)) r[0] = false; }); return r[0]; }
  public boolean noneMatch(Predicate<? super T> p) { return !anyMatch(p); }
  public java_util_stream_IntStream mapToInt(ToIntFunction<? super T> f) { return new java_util_stream_IntStream(0, 0, this, x -> f.applyAsInt((T) x)); }
  public Object collect(java_util_stream_Collector c) {
    if (c.kind == 0) { List<Object> r = new ArrayList<>(); forEach(x -> r.add(x)); return r; }
    StringJoiner j = new StringJoiner(c.sep, c.pre, c.suf); forEach(x -> j.add((CharSequence) x)); return j.toString();
  }
}
