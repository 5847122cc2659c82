From 36fc7e0218c9b36b7d81599457689ed9fdde6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 1/8] fix: hashCode of field-less messages no longer recurses
 forever

hashCode() returned this.hashCode(), so putting such a message into a hash
container (or hashing a frame that carries it) ended in StackOverflowError.
---
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend041.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend042.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend043.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend044.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend045.java | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend041.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend042.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend043.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend044.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend045.java   | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder041.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder042.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder043.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder044.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder045.java     | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Heartbeat.java   | 2 +-
 .../java/com/finproto/bjse/trade/messages/QuoteExtend071.java   | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend061.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend060.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend061.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend060.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend061.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend061.java        | 2 +-
 .../src/main/java/com/finproto/sample/messages/EmptyPacket.java | 2 +-
 .../src/main/java/com/finproto/sse/bin/messages/Heartbeat.java  | 2 +-
 .../src/main/java/com/finproto/szse/bin/messages/Heartbeat.java | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
index 4337fd1..05ee2f9 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
@@ -14,7 +14,7 @@ public class ConfirmExtend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
index 373f9d0..f8a3055 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
@@ -14,7 +14,7 @@ public class ConfirmExtend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
index 49d18a2..31b2c68 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
@@ -14,7 +14,7 @@ public class ConfirmExtend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
index 609f670..c99bb18 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
@@ -14,7 +14,7 @@ public class ConfirmExtend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
index 2c41e8c..356cebb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
@@ -14,7 +14,7 @@ public class ConfirmExtend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
index 3a7dc0a..ecb658e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
@@ -14,7 +14,7 @@ public class Extend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
index 491766d..44c78e2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
@@ -14,7 +14,7 @@ public class Extend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
index de963cd..cc00dd2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
@@ -14,7 +14,7 @@ public class Extend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
index aa23b27..92b35c4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
@@ -14,7 +14,7 @@ public class Extend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
index 4086ae8..a6eecd4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
@@ -14,7 +14,7 @@ public class Extend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
index 400bdd0..efc2974 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
index eef02f0..f2a457e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
index 01f43f9..6dbf3fe 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
index 253e558..9d42403 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
index c89907e..8a84543 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
index c90284b..1317023 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
index 79019eb..fa29f14 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
@@ -14,7 +14,7 @@ public class QuoteExtend071 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
index 932549e..622ae20 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
index 5c23cec..4044eea 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
index 2fb2ab9..decc72f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
index df3faa7..69da2cf 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
index bb63a9d..b25026a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
index 243d0e8..c50fef3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
index 8bc38be..6c46e1e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
index ddd9f60..872606c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
index 765c155..b1d8637 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
@@ -14,7 +14,7 @@ public class EmptyPacket implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
index 988f970..1bf3cb7 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
index 92acb8d..151200d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
-- 
2.43.0


From bc5d26f0fabd3cffd3c0751f478cfa71691e8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 2/8] fix: left-padded fixed-width text is full width when null
 or empty

writeFixedString wrote no byte at all for a null or empty left-padded value,
which shifted every later field of the message.
---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 5d8d8e6..1edfa1b 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -24,6 +24,8 @@ public interface BinaryCodec {
         padChar(byteBuf, len - writedLen, padChar);
       }
       byteBuf.writeBytes(bytes, 0, writedLen);
+    } else if (padLeft) {
+      padChar(byteBuf, len, padChar);
     }
     if (!padLeft && writedLen < len) {
       padChar(byteBuf, len - writedLen, padChar);
-- 
2.43.0


From 682daf02a5730010f5df1d4de99d47bbb13c3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 3/8] fix: IntBitMap and LongBitMap clear() clears the bit

clear() set the bit it was asked to clear.
---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 2 +-
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index 78dcf42..f563abc 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -14,7 +14,7 @@ public final class IntBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     int bit = 1 << (31 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 2e9d1d7..018aba8 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -14,7 +14,7 @@ public final class LongBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     long bit = 1L << (63 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
-- 
2.43.0


From 6010c8984b22d2474176fae849199a3e82dbaa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 4/8] fix: register the SSE_BIN and SZSE_BIN checksum services
 by default

SseBinary and SzseBinary look these names up, found nothing and sent whatever
checksum value the caller had left in the message.
---
 .../main/java/com/finproto/codec/ChecksumServiceFactory.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index b4947d7..0fb10a5 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -15,6 +15,8 @@ public enum ChecksumServiceFactory {
   private ChecksumServiceFactory() {
     registry(new Crc16ChecksumService());
     registry(new Crc32ChecksumService());
+    registry(new SseBinChecksumService());
+    registry(new SzseBinChecksumService());
   }
 
   public void removeChecksumService(String name) {
-- 
2.43.0


From 92a7d12c552746fa9159ad5b22c46aeeecc9e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 5/8] fix: frame checksum covers the frame, not everything
 readable in the buffer

Encoding a frame after other unread bytes of the same buffer (for instance a
second frame) computed its checksum over those bytes as well.
---
 .../main/java/com/finproto/sample/messages/RootPacket.java   | 5 ++++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java   | 5 ++++-
 .../main/java/com/finproto/szse/bin/messages/SzseBinary.java | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 1cafb0c..ea5b6c2 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -50,6 +50,7 @@ public class RootPacket implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeShortLE(this.msgType);
     int payloadLenPos = byteBuf.writerIndex();
     byteBuf.writeIntLE(0);
@@ -64,7 +65,9 @@ public class RootPacket implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("CRC32");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int) checksumService.calc(
+              byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeIntLE(this.checksum);
   }
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 6827a93..116f8e7 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -59,6 +59,7 @@ public class SseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     byteBuf.writeLong(this.msgSeqNum);
     int msgBodyLenPos = byteBuf.writerIndex();
@@ -74,7 +75,9 @@ public class SseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int) checksumService.calc(
+              byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index a064023..2a7eee9 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -50,6 +50,7 @@ public class SzseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     int bodyLengthPos = byteBuf.writerIndex();
     byteBuf.writeInt(0);
@@ -64,7 +65,9 @@ public class SzseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int) checksumService.calc(
+              byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
-- 
2.43.0


From 6478675f1420864e04a33e093181f8b56a5c0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 6/8] fix: StringPacket keeps empty elements of dynamic string
 lists

decode() dropped them, so the decoded list was shorter than the encoded one.
---
 .../main/java/com/finproto/sample/messages/StringPacket.java  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7433f9b..5c50915 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -233,6 +233,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
                   .toString());
+        } else {
+          this.fieldDynamicStringList.add("");
         }
       }
     }
@@ -246,6 +248,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
                   .toString());
+        } else {
+          this.fieldDynamicString1List.add("");
         }
       }
     }
-- 
2.43.0


From fbe996f92ba8dc4f316a4c55348136dd203a9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 7/8] fix: decode clears list and dynamic text fields that are
 absent on the wire

Decoding into a message object that already held a value kept the stale value
when the received count or length was 0.
---
 .../finproto/bjse/trade/messages/PlatformInfo.java    |  1 +
 .../finproto/bjse/trade/messages/QuoteResponse.java   |  1 +
 .../trade/messages/QuoteStatusReportExtend070.java    |  1 +
 .../bjse/trade/messages/ReportSynchronization.java    |  1 +
 .../com/finproto/risk/bin/messages/CancelReject.java  |  4 ++++
 .../finproto/risk/bin/messages/ExecutionReport.java   |  3 +++
 .../java/com/finproto/risk/bin/messages/NewOrder.java |  4 ++++
 .../com/finproto/risk/bin/messages/OrderCancel.java   |  5 +++++
 .../com/finproto/risk/bin/messages/OrderConfirm.java  |  4 ++++
 .../com/finproto/risk/bin/messages/RiskResult.java    |  2 ++
 .../com/finproto/sample/messages/BasicPacket.java     | 11 +++++++++++
 .../com/finproto/sample/messages/NestedPacket.java    |  2 ++
 .../com/finproto/sample/messages/StringPacket.java    |  8 ++++++++
 .../java/com/finproto/sample/messages/SubPacket.java  |  1 +
 .../com/finproto/sse/bin/messages/ExecRptInfo.java    |  2 ++
 .../com/finproto/sse/bin/messages/ExecRptSync.java    |  1 +
 .../com/finproto/sse/bin/messages/ExecRptSyncRsp.java |  1 +
 .../com/finproto/szse/bin/messages/Extend206302.java  |  1 +
 .../com/finproto/szse/bin/messages/PlatformInfo.java  |  1 +
 .../szse/bin/messages/ReportSynchronization.java      |  1 +
 20 files changed, 55 insertions(+)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index ff194c1..110d608 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -44,6 +44,7 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
     short noPartitionsSize = byteBuf.readShortLE();
+    this.noPartitions = null;
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 07fffbd..3b669d6 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -246,6 +246,7 @@ public class QuoteResponse implements BinaryCodec {
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
     short quote2Size = byteBuf.readShortLE();
+    this.quote2 = null;
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8c2e0ae..e7bb3f9 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -154,6 +154,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
     short quote1Size = byteBuf.readShortLE();
+    this.quote1 = null;
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 5e50c56..11788d0 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -33,6 +33,7 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     short reportPartitionSyncSize = byteBuf.readShortLE();
+    this.reportPartitionSync = null;
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 923489e..e3bb4af 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -94,20 +94,24 @@ public class CancelReject implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int origClOrdIdLen = byteBuf.readInt();
+    this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 2cadc59..b550d73 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -97,15 +97,18 @@ public class ExecutionReport implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int ordCnfmIdLen = byteBuf.readInt();
+    this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 78dcf79..a4e1c21 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -123,15 +123,18 @@ public class NewOrder implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int securityIdLen = byteBuf.readInt();
+    this.securityId = null;
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
     }
@@ -140,6 +143,7 @@ public class NewOrder implements BinaryCodec {
     this.orderQty = byteBuf.readLong();
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
+    this.account = null;
     if (accountLen > 0) {
       this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 458743d..8c74abd 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -100,25 +100,30 @@ public class OrderCancel implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int origClOrdIdLen = byteBuf.readInt();
+    this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int securityIdLen = byteBuf.readInt();
+    this.securityId = null;
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 2d23d1e..97ee819 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -103,22 +103,26 @@ public class OrderConfirm implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
+    this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e6fe4c8..12e867b 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -59,12 +59,14 @@ public class RiskResult implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
+    this.riskReason = null;
     if (riskReasonLen > 0) {
       this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 43445e1..acb5921 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -324,6 +324,7 @@ public class BasicPacket implements BinaryCodec {
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
     short fieldI8ListSize = byteBuf.readShortLE();
+    this.fieldI8List = null;
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
@@ -331,6 +332,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldI16ListSize = byteBuf.readShortLE();
+    this.fieldI16List = null;
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
@@ -338,6 +340,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldI32ListSize = byteBuf.readShortLE();
+    this.fieldI32List = null;
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
@@ -345,6 +348,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldI64ListSize = byteBuf.readShortLE();
+    this.fieldI64List = null;
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
@@ -352,6 +356,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldCharListSize = byteBuf.readShortLE();
+    this.fieldCharList = null;
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
@@ -359,6 +364,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldU8ListSize = byteBuf.readShortLE();
+    this.fieldU8List = null;
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
@@ -366,6 +372,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldU16ListSize = byteBuf.readShortLE();
+    this.fieldU16List = null;
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
@@ -373,6 +380,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldU32ListSize = byteBuf.readShortLE();
+    this.fieldU32List = null;
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
@@ -380,6 +388,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldU64ListSize = byteBuf.readShortLE();
+    this.fieldU64List = null;
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
@@ -387,6 +396,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldF32ListSize = byteBuf.readShortLE();
+    this.fieldF32List = null;
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
@@ -394,6 +404,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     short fieldF64ListSize = byteBuf.readShortLE();
+    this.fieldF64List = null;
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 35d56a4..ec82b0f 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -57,6 +57,7 @@ public class NestedPacket implements BinaryCodec {
     }
     this.subPacket.decode(byteBuf);
     short subPacketListSize = byteBuf.readShortLE();
+    this.subPacketList = null;
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -140,6 +141,7 @@ public class NestedPacket implements BinaryCodec {
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
       short fieldI16ListSize = byteBuf.readShortLE();
+      this.fieldI16List = null;
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 5c50915..b9fbdb5 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -210,11 +210,13 @@ public class StringPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     short fieldDynamicStringLen = byteBuf.readShortLE();
+    this.fieldDynamicString = null;
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
     }
     short fieldDynamicString1Len = byteBuf.readShortLE();
+    this.fieldDynamicString1 = null;
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
@@ -224,6 +226,7 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
     short fieldDynamicStringListSize = byteBuf.readShortLE();
+    this.fieldDynamicStringList = null;
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
@@ -239,6 +242,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     short fieldDynamicString1ListSize = byteBuf.readShortLE();
+    this.fieldDynamicString1List = null;
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
@@ -254,6 +258,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     short fieldFixedString1ListSize = byteBuf.readShortLE();
+    this.fieldFixedString1List = null;
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
@@ -261,6 +266,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     short fieldFixedString10ListSize = byteBuf.readShortLE();
+    this.fieldFixedString10List = null;
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
@@ -268,6 +274,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     short fieldFixedString10ListPadSize = byteBuf.readShortLE();
+    this.fieldFixedString10ListPad = null;
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
@@ -275,6 +282,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
+    this.fieldFixedString10PadWithNullTerminatorList = null;
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 5de2656..344e970 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -44,6 +44,7 @@ public class SubPacket implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
     short fieldI16ListSize = byteBuf.readShortLE();
+    this.fieldI16List = null;
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 8d6906a..c932a8a 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -61,6 +61,7 @@ public class ExecRptInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     short pbuSize = byteBuf.readShort();
+    this.pbu = null;
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
@@ -68,6 +69,7 @@ public class ExecRptInfo implements BinaryCodec {
       }
     }
     short setIdSize = byteBuf.readShort();
+    this.setId = null;
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 200e8f8..bb587e6 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -33,6 +33,7 @@ public class ExecRptSync implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     short subExecRptSyncSize = byteBuf.readShort();
+    this.subExecRptSync = null;
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index e77621b..9e43d39 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -33,6 +33,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     short subExecRptSyncRspSize = byteBuf.readShort();
+    this.subExecRptSyncRsp = null;
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 995c7f9..f7c1b9d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -109,6 +109,7 @@ public class Extend206302 implements BinaryCodec {
     this.lotType = readFixedString(byteBuf, 1);
     this.imcrejectTextLen = byteBuf.readInt();
     int imcrejectTextLen = byteBuf.readInt();
+    this.imcrejectText = null;
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
           byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 3ce9ee0..23c893e 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -44,6 +44,7 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int platformPartitionSize = byteBuf.readInt();
+    this.platformPartition = null;
     if (platformPartitionSize > 0) {
       this.platformPartition = new ArrayList<>();
       for (int i = 0; i < platformPartitionSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 5a8674c..9980e63 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -33,6 +33,7 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int partitionReportSize = byteBuf.readInt();
+    this.partitionReport = null;
     if (partitionReportSize > 0) {
       this.partitionReport = new ArrayList<>();
       for (int i = 0; i < partitionReportSize; i++) {
-- 
2.43.0


From 1535ac2497a09716efe5f70e0bd0c6580c761a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 8/8] fix: decoding text never reads past the writer index

ByteBuf.readCharSequence checks the buffer's capacity, not its writer index: a
truncated message in a buffer with spare capacity was accepted, with stale bytes
as text, and left the reader index behind the writer index.
---
 .../main/java/com/finproto/codec/BinaryCodec.java    |  2 +-
 .../com/finproto/risk/bin/messages/CancelReject.java |  8 ++++----
 .../finproto/risk/bin/messages/ExecutionReport.java  |  6 +++---
 .../com/finproto/risk/bin/messages/NewOrder.java     |  8 ++++----
 .../com/finproto/risk/bin/messages/OrderCancel.java  | 10 +++++-----
 .../com/finproto/risk/bin/messages/OrderConfirm.java |  8 ++++----
 .../com/finproto/risk/bin/messages/RiskResult.java   |  4 ++--
 .../com/finproto/sample/messages/StringPacket.java   | 12 ++++--------
 .../com/finproto/szse/bin/messages/Extend206302.java |  2 +-
 9 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 1edfa1b..9b05919 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -62,7 +62,7 @@ public interface BinaryCodec {
   }
 
   default String readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft) {
-    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);
     if (padLeft) {
       return trimByChar(value, trimPadChar, true);
     } else {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index e3bb4af..cfb9278 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -97,24 +97,24 @@ public class CancelReject implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index b550d73..94d8ce0 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -100,17 +100,17 @@ public class ExecutionReport implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int ordCnfmIdLen = byteBuf.readInt();
     this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index a4e1c21..88606f3 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -126,17 +126,17 @@ public class NewOrder implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     this.securityId = null;
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -145,7 +145,7 @@ public class NewOrder implements BinaryCodec {
     int accountLen = byteBuf.readInt();
     this.account = null;
     if (accountLen > 0) {
-      this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+      this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 8c74abd..6b0aedc 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -103,29 +103,29 @@ public class OrderCancel implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     this.securityId = null;
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 97ee819..f0b518a 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -106,25 +106,25 @@ public class OrderConfirm implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index 12e867b..7c4fb89 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -62,13 +62,13 @@ public class RiskResult implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     this.riskReason = null;
     if (riskReasonLen > 0) {
-      this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+      this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index b9fbdb5..30399d3 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -213,13 +213,13 @@ public class StringPacket implements BinaryCodec {
     this.fieldDynamicString = null;
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
-          byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     }
     short fieldDynamicString1Len = byteBuf.readShortLE();
     this.fieldDynamicString1 = null;
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
-          byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -233,9 +233,7 @@ public class StringPacket implements BinaryCodec {
         short fieldDynamicStringListLen = byteBuf.readShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
-                  .toString());
+              byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
         } else {
           this.fieldDynamicStringList.add("");
         }
@@ -249,9 +247,7 @@ public class StringPacket implements BinaryCodec {
         short fieldDynamicString1ListLen = byteBuf.readShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
-                  .toString());
+              byteBuf.readSlice(fieldDynamicString1ListLen).toString(StandardCharsets.UTF_8));
         } else {
           this.fieldDynamicString1List.add("");
         }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index f7c1b9d..0c29e6d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -112,7 +112,7 @@ public class Extend206302 implements BinaryCodec {
     this.imcrejectText = null;
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
-          byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
     }
   }
 
-- 
2.43.0

