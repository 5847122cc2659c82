package stub;
import io.netty.buffer.*; import java.nio.charset.*;
public class ext_io_netty_buffer_ByteBufUtil {
  static byte[] getBytes(ByteBuf b) { byte[] r = new byte[b.readableBytes()]; b.getBytes(b.readerIndex(), r); return r; }
  static byte[] getBytes(ByteBuf b, int at, int len) { byte[] r = new byte[len]; b.getBytes(at, r); return r; }
  static int writeUtf8(ByteBuf b, CharSequence s) { return b.writeCharSequence(s, StandardCharsets.UTF_8); }
  static int utf8Bytes(CharSequence s) { return s.toString().getBytes(StandardCharsets.UTF_8).length; }
}
