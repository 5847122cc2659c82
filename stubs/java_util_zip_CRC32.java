package stub;
/** java.util.zip.CRC32: reflected polynomial 0xEDB88320, all ones in and out */
public class java_util_zip_CRC32 {
  private int c = -1;
  public java_util_zip_CRC32() {}
  public void update(int b) {
    int x = (this.c ^ b) & 0xff;
    for (int k = 0; k < 8; k++) x = (x & 1) != 0 ? (x >>> 1) ^ 0xEDB88320 : x >>> 1;
    this.c = x ^ (this.c >>> 8);
  }
  public void update(byte[] a) { int n = a.length; for (int i = 0; i < n; i++) update(a[i]); }
  public void update(byte[] a, int off, int len) {
    if (off < 0 || len < 0 || off > a.length - len) throw new ArrayIndexOutOfBoundsException();
    for (int i = 0; i < len; i++) update(a[off + i]);
  }
  public long getValue() { return (this.c ^ -1) & 0xffffffffL; }
  public void reset() { this.c = -1; }
}
