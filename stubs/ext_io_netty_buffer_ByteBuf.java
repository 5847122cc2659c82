package stub;
import io.netty.buffer.*; import io.netty.util.*;
public class ext_io_netty_buffer_ByteBuf {
  static java_nio_ByteBuffer nioBuffer(ByteBuf b) { return new java_nio_ByteBuffer(b.slice()); }
  static java_nio_ByteBuffer nioBuffer(ByteBuf b, int at, int len) { return new java_nio_ByteBuffer(b.slice(at, len)); }
  static int forEachByte(ByteBuf b, ByteProcessor p) throws Exception {
    int end = b.writerIndex();
    for (int i = b.readerIndex(); i < end; i++) if (!p.process(b.getByte(i))) return i;
    return -1;
  }
  static int forEachByte(ByteBuf b, int at, int len, ByteProcessor p) throws Exception {
    if (at < 0 || len < 0 || at > b.writerIndex() - len) throw new IndexOutOfBoundsException();
    for (int i = 0; i < len; i++) if (!p.process(b.getByte(at + i))) return at + i;
    return -1;
  }
}
