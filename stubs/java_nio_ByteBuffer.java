package stub;
import io.netty.buffer.*;
/** java.nio.ByteBuffer as a view of bytes: big-endian, position and limit */
public class java_nio_ByteBuffer {
  final ByteBuf b;
  java_nio_ByteBuffer(ByteBuf b) { this.b = b; }
  public static java_nio_ByteBuffer wrap(byte[] a) { return new java_nio_ByteBuffer(Unpooled.wrappedBuffer(a)); }
  public boolean hasRemaining() { return this.b.readableBytes() > 0; }
  public int remaining() { return this.b.readableBytes(); }
  public int position() { return this.b.readerIndex(); }
  public int limit() { return this.b.writerIndex(); }
  public byte get() { if (this.b.readableBytes() < 1) throw new java.nio.BufferUnderflowException(); return this.b.readByte(); }
  public byte get(int i) { return this.b.getByte(i); }
  public java_nio_ByteBuffer get(byte[] a) { if (this.b.readableBytes() < a.length) throw new java.nio.BufferUnderflowException(); this.b.readBytes(a); return this; }
}
