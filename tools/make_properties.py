import json
MSG=["bjse-bin/src/main/java/com/finproto/bjse/trade/messages","szse-bin/src/main/java/com/finproto/szse/bin/messages","sse-bin/src/main/java/com/finproto/sse/bin/messages","risk-bin/src/main/java/com/finproto/risk/bin/messages","sample-bin/src/main/java/com/finproto/sample/messages"]
CODEC="codec/src/main/java/com/finproto/codec/"; BM="codec/src/main/java/com/finproto/bitmap/"
P=[]
def p(id,title,st,over,q,why,files,symbols):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=files[0] if len(files)==1 else 'in the anchored files') for x in symbols])))
T="Each message has about one test with one hand-picked value set; "
p("C01","Decoding what was encoded gives back the message",
 "For every message type of every protocol, decoding the bytes its encode produced, into a fresh object of that type, succeeds and yields a message with the same property values. Fixed-width text comes back without padding on its padded side (absent text as empty), an absent list or length-prefixed text may come back as empty or vice versa, and length and checksum properties that encoding computes come back as computed. This holds whenever fixed-width text fits its width in UTF-8, text is well-formed Unicode, counts and lengths fit the positive range of their prefix, nested parts are present, and the type of a variant part is the one registered for its discriminator.",
 ["inputs"],"all messages in the stated domain: any numbers, texts, list lengths and nested parts",
 T+"they cannot settle other numbers, list lengths, text sizes, negative values, multi-byte or empty text, or every variant.",
 MSG+[CODEC+"BinaryCodec.java"],["encode","decode"])
p("C02","The wire layout of every message is the protocol's",
 "Encoding a message writes exactly the protocol's fields in the protocol's order, each with the width, byte order, padding character and side, and list-count or text-length prefix size that the type has at this revision. Over-long fixed-width text is cut to its width, and absent lists or length-prefixed texts are written as a zero prefix. Decoding reads each property from exactly the position and in the form in which this layout puts it.",
 ["inputs"],"all message values, all list lengths and texts",
 T+"they compare an encode with its own decode, so a layout change made on both sides (order, endianness, width, padding) passes every test while breaking every peer.",
 MSG+[CODEC+"BinaryCodec.java"],["encode","decode","writeFixedString","readFixedString"])
p("C03","Encoding only appends and decoding consumes exactly one message",
 "Encoding a message into a buffer that already holds data appends to it: earlier bytes and the reader position are unchanged, and the appended bytes are the same whatever the buffer held. Decoding consumes exactly the bytes that encoding that message produced and nothing of what follows, so messages written back to back decode one after the other. Decoding never changes the bytes of the buffer or its writer position.",
 ["inputs","histories"],"all messages in the domain of C01, any earlier and later buffer contents",
 "Tests encode one message into an empty buffer and stop after decoding it; nothing precedes or follows it.",
 MSG+[CODEC+"BinaryCodec.java"],["encode","decode"])
p("C04","Decoding arbitrary bytes is safe",
 "For every message type and every content of the buffer, decoding terminates, either normally or with an IndexOutOfBoundsException (not enough bytes) or an IllegalArgumentException (unknown variant discriminator); no other exception or error occurs. The buffer's bytes and writer position are unchanged and the reader position never moves backwards or past the writer position.",
 ["inputs"],"all byte sequences of any length, all message types",
 "Tests only decode bytes that encode just produced; malformed, truncated or hostile input is never tried.",
 MSG+[CODEC+"BinaryCodec.java"],["decode"])
p("C05","A truncated message is never accepted",
 "For every message in the round-trip domain, decoding any strict prefix of its encoded bytes throws an IndexOutOfBoundsException instead of returning normally, also when the buffer that holds the prefix has spare capacity behind it.",
 ["inputs"],"all messages in the domain of C01, all strict prefixes",
 "No test decodes a prefix; the number of messages times cut positions is unbounded.",
 MSG+[CODEC+"BinaryCodec.java"],["decode"])
p("C06","Frames carry the correct body length and checksum",
 "When the SSE, SZSE, risk or sample frame is encoded, its length field and property are the exact number of bytes of the encoded body, whatever value was set before and wherever in the buffer the frame starts. The checksum field and property of the SSE, SZSE and sample frame are the SSE_BIN, SZSE_BIN and CRC32 algorithm respectively over exactly the frame's own bytes that precede the checksum, as calculated by the service registered under that name. If no service is registered under that name, the checksum set by the caller is written unchanged.",
 ["inputs","configurations"],"all frame headers, all bodies, all earlier buffer contents, all registered services",
 "Tests encode one frame into an empty buffer and compare with its own decode: a wrong length or checksum round-trips.",
 [MSG[1]+"/SzseBinary.java",MSG[2]+"/SseBinary.java",MSG[3]+"/RcBinary.java",MSG[4]+"/RootPacket.java"],["encode"])
p("C07","Checksum services compute the published algorithms and are pure",
 "For every byte sequence, CRC16 is CRC-16/MODBUS, CRC32 is CRC-32/ISO-HDLC (as signed 32-bit value), and SSE_BIN and SZSE_BIN are the sum of the unsigned bytes modulo 256, each over the readable bytes of the buffer. A calculation leaves the buffer's content and positions unchanged and depends on nothing but those bytes. Verifying answers true exactly when the expected value equals the calculated one, and each service reports its own algorithm name.",
 ["inputs","histories"],"all byte sequences of any length and at any reader position, any sequence of calls",
 "Tests check one or two short vectors per algorithm.",
 [CODEC+x for x in ("Crc16ChecksumService.java","Crc32ChecksumService.java","SseBinChecksumService.java","SzseBinChecksumService.java","ChecksumService.java")],["calc","verify","algorithm"])
p("C08","The checksum registry keeps the first service registered under a name",
 "Registering a service succeeds exactly when no service with its algorithm name is registered, and then a lookup of that name returns it; otherwise registration answers false and the earlier service stays. Removing a name or clearing the registry affects exactly those names, after which a lookup answers null and a new registration succeeds. Initially CRC16, CRC32, SSE_BIN and SZSE_BIN are registered, with their own implementations.",
 ["histories"],"all sequences of register, remove, clear and lookup",
 "Tests look up fixed names in one order.",
 [CODEC+"ChecksumServiceFactory.java"],["registry","removeChecksumService","clearAllChecksumService","getChecksumService"])
p("C09","Messages are dispatched by discriminator to the protocol's types",
 "For every frame or message with a variant part, each discriminator value of the protocol creates a fresh, empty instance of the message type the protocol assigns to it, and any other value is rejected with an IllegalArgumentException. Registering a discriminator makes it create through the given supplier from then on, removing it makes it unknown and reports whether it was known, and neither affects any other discriminator. For SSE, looking up a message class answers the number it was last registered under, initially that of the protocol's table, and each message type constant maps to its number and back, unknown numbers being rejected with an IllegalArgumentException.",
 ["inputs","histories"],"all discriminator values, all register/remove histories",
 "Tests create a handful of known values; unknown values, removal, replacement and instance sharing are not tried for each table.",
 [MSG[0]+"/BjseBinary.java",MSG[1]+"/SzseBinary.java",MSG[2]+"/SseBinary.java",MSG[3]+"/RcBinary.java",MSG[4]+"/RootPacket.java",MSG[0]+"/NewOrder.java",MSG[1]+"/ExecutionReport.java"],["create","register","remove","getMsgType","fromValue"])
p("C10","Message equality is field-wise and hashing agrees with it",
 "Two messages are equal exactly when they are of the same type and all their properties are equal; equality is reflexive, symmetric and transitive, and a message never equals null or an object of another type. Equal messages have equal hash codes, and comparing and hashing never fail or change a message, whatever properties are unset.",
 ["inputs"],"all pairs and triples of messages, including unset properties",
 "Tests compare one message with its decoded copy; no test compares unequal messages or relates hash codes.",
 MSG,["equals","hashCode"])
p("C11","Properties are independent storage",
 "For every property of every message, getting after setting returns the value that was set, unchanged. Setting one property leaves every other property of the message as it was, and getting changes nothing.",
 ["inputs","histories"],"all values of each property, all sequences of sets and gets",
 "Tests set each property once, to values often alike, and mostly look only at equality with the decoded copy.",
 MSG,["get*","set*"])
p("C12","Fixed-width text is written and read by exact rules",
 "Writing text to a fixed-width field of n bytes always writes exactly n bytes: its UTF-8 form, cut to the first n bytes, and otherwise filled up with the padding character on the chosen side (null and empty text give n padding bytes); the default is spaces on the right. Reading takes exactly n bytes, decodes them as UTF-8 and removes the padding character from the chosen side only, never from the other side or the middle. Trimming removes exactly the longest run of the character on that side.",
 ["inputs"],"all texts, widths, padding characters and sides",
 "The codec tests try a few ASCII values; widths, multi-byte text, cutting, interior padding and empty text in all combinations are unbounded.",
 [CODEC+"BinaryCodec.java"],["writeFixedString","readFixedString","padChar","trimByChar"])
p("C13","Bitmaps set, clear and test single positions",
 "For each bitmap size (8, 16, 32, 64) and every position from 0 to size-1: setting makes that position read true, clearing makes it read false, and neither changes what any other position reads. A new bitmap reads false everywhere, reading changes nothing, and the bit count is the size.",
 ["inputs","histories"],"all bitmap states, all positions and pairs of positions",
 "No test touches the bitmaps.",
 [BM+x+"BitMap.java" for x in ("Byte","Short","Int","Long")],["set","clear","get","bitCount"])
p("C14","Bitmaps survive transfer over the wire",
 "Writing a bitmap to a buffer and reading it back into any other bitmap of the same size makes every position read as in the original. Writing leaves the bitmap and earlier buffer content unchanged, and reading consumes exactly the bytes that writing produced.",
 ["inputs"],"all bitmap states, all positions",
 "No test touches the bitmaps.",
 [BM+x+"BitMap.java" for x in ("Byte","Short","Int","Long")],["write","read"])
p("C15","The decoded result does not depend on the target's earlier content",
 "Decoding the same bytes into any two objects of the same message type, whatever they held before (including the result of an earlier decode, successful or not), gives equal messages and consumes the same number of bytes, or fails in both.",
 ["inputs","histories"],"all byte sequences, all earlier states of the target object",
 "Tests always decode into a new object.",
 MSG,["decode"])
p("C16","Encoding is repeatable, total and leaves the message alone",
 "Encoding never fails for a message whose text is well-formed and whose nested message parts and list elements are present, however many of its text, list and variant parts are unset. It changes no property of the message or of its nested parts except the body length and checksum that a frame computes, and encoding the same message again writes the same bytes.",
 ["inputs","histories"],"all messages with any subset of optional parts unset, any number of repetitions",
 "Tests encode fully populated messages once.",
 MSG+[CODEC+"BinaryCodec.java"],["encode"])
p("C17","The textual form shows the type and every property",
 "The textual form of a message never fails, starts with the name of the message type, and shows every property, in declaration order, as its name, an equals sign and the textual form of its current value (null if unset), separated by comma and space and enclosed in square brackets.",
 ["inputs"],"all messages, including unset properties and empty message types",
 "No test looks at the textual form of more than a few messages.",
 MSG,["toString"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
