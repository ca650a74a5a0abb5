from spec import *

STUBS = [
 "the Go runtime (goroutines, channels, mutexes, maps, timers), sync, sync/atomic, time, internal/bytealg, strconv's integer formatting and the regexp matcher are modelled by the engine; fmt is replaced by a small interpreted formatter; everything else, the standard library's bufio, bytes, strings and strconv included, is executed from its source",
 "every violation reported has been reproduced by the compiled code, or (schedule-dependent ones that native runs do not hit) by a concrete re-execution of the SSA form under the recorded schedule",
]

prop("C01", "A frame that is written is read back unchanged",
 "Every sequence of STOMP frames and heart-beats written with the frame Writer is returned by the frame Reader in the same order with the same command, the same headers (names and values byte for byte, in order, repeated names kept) and the same body, and reading consumes exactly the bytes that were written. This holds for any header text (colons, backslashes, carriage returns, newlines included) with a non-empty name, and for any body that is either announced by a content-length header or free of NUL bytes.",
 ["inputs"], "every frame over the 15 commands, every header text and body, every sequence of frames and heart-beats, any buffer size",
 "encode_test.go and writer_test.go check a handful of literal strings; the interaction of the escape sequences, repeated headers, content-length and buffer boundaries ranges over all byte strings.",
 ["frame/writer.go","frame/reader.go","frame/encode.go","frame/header.go"],
 [("Writer.Write escapes names and values and ends the frame","frame/writer.go"),("Reader.Read splits lines, unescapes, honours content-length","frame/reader.go"),("the two replacers","frame/encode.go")],
 ["frame.Writer.Write -> frame.Reader.Read"])
check("C01",
 quick=[
  J("RoundTrip", dict(nh=1,klen=1,vlen=2,blen=2), reach=["end"], bound="1 header, name 1, value <= 2, body <= 2 bytes, all bytes arbitrary; 15 commands; with and without content-length"),
  J("RoundTrip", dict(nh=1,klen=1,vlen=3,blen=0,onecmd=1), reach=["end"], bound="one header value of up to 3 arbitrary bytes, one command"),
  J("RoundTrip", dict(nh=1,klen=3,vlen=0,blen=0,onecmd=1), reach=["end"], bound="one header name of up to 3 arbitrary bytes, one command"),
  J("RoundTrip", dict(nh=2,klen=1,vlen=1,blen=0,onecmd=1), reach=["end"], bound="two headers (equal names included), one command"),
  J("RoundTripSeq", dict(n=3,vlen=1,blen=2,wbuf=16,rbuf=16), reach=["end"], bound="3 frames or heart-beats, 16-byte buffers on both sides"),
  J("FrameBig", reach=["end"], max_steps=60000000, bound="frames of 400 headers, names and values of 9000 bytes, bodies of 40,000 bytes, one byte of them arbitrary; buffers of 16 and 4096 bytes"),
 ],
 thorough=[
  J("RoundTrip", dict(nh=1,klen=2,vlen=2,blen=2), reach=["end"], bound="1 header, name <= 2, value <= 2, body <= 2 bytes, all bytes arbitrary; 15 commands; with and without content-length"),
  J("RoundTrip", dict(nh=2,klen=1,vlen=2,blen=1,onecmd=1), reach=["end"], bound="2 headers, name 1, value <= 2, body <= 1 byte, one command"),
  J("RoundTrip", dict(nh=1,klen=1,vlen=5,blen=1,onecmd=1), reach=["end"], bound="value <= 5, body <= 1 byte, one command"),
  J("RoundTrip", dict(nh=1,klen=3,vlen=2,blen=0,onecmd=1), reach=["end"], bound="name <= 3, value <= 2, one command"),
  J("RoundTripSeq", dict(n=4,vlen=1,blen=2,wbuf=16,rbuf=16), reach=["end"], bound="4 frames or heart-beats, 16-byte buffers"),
  J("RoundTripSeq", dict(n=3,vlen=2,blen=3), reach=["end"], bound="3 frames, default buffers"),
  J("FrameBig", reach=["end"], max_steps=60000000, bound="frames of 400 headers, names and values of 9000 bytes, bodies of 40,000 bytes, one byte of them arbitrary; buffers of 16 and 4096 bytes"),
 ],
 bounds=["large frames (up to 400 headers, 9000-byte names and values, 40,000-byte bodies) with one arbitrary byte","header names of 1-2 bytes and values of up to 5 bytes, bodies of up to 3 bytes, at most 2 headers per frame and 4 frames per stream, every byte arbitrary","longer texts, other buffer sizes than 16 and 4096 are outside the claim"],
 assumptions=STUBS+["precondition: header names are not empty; a body with NUL bytes has a content-length header; no other content-length header is present"])

prop("C02", "The Reader decodes exactly the STOMP grammar and never crashes",
 "For every byte stream the frame Reader returns exactly the heart-beats and frames of the stream in order: LF or CR LF ends a line, escapes in header names and values are decoded, the first content-length (decimal, below 2^32) delimits the body and otherwise the first NUL does. A stream that is malformed or ends early yields an error and never a frame, unknown commands and malformed header lines are reported as ErrInvalidCommand and ErrInvalidFrameFormat, and no input makes it panic or loop.",
 ["inputs"], "every byte stream",
 "reader_test.go decodes a few well-formed and malformed literals; the property quantifies over all byte streams from an untrusted peer.",
 ["frame/reader.go","frame/encode.go","frame/header.go"],
 [("Reader.Read","frame/reader.go"),("Header.ContentLength","frame/header.go"),("unencodeValue","frame/encode.go")],
 ["frame.Reader.Read"])
check("C02",
 quick=[
  J("ReaderAny", dict(n=5), reach=["heart-beat","bad-command","truncated"], bound="5 arbitrary bytes"),
  J("ReaderHeaders", dict(n=7,cmd=0), reach=["frame","bad-format","truncated","undefined-escape"], bound="ACK and 7 arbitrary bytes"),
  J("ReaderHeaders", dict(n=5,cmd=1,rbuf=16), reach=["frame"], bound="SEND, CR LF and 5 arbitrary bytes, 16-byte buffer"),
  J("ReaderHeaderLine", dict(n=5,tail=1), reach=["frame","bad-format","undefined-escape"], bound="a header section of 5 arbitrary bytes before the end of the frame"),
  J("ReaderLength", dict(v=2,n=5), reach=["frame","bad-length","bad-format","truncated"], bound="content-length of 2 arbitrary bytes, then 5 arbitrary bytes"),
  J("ReaderLengthTwice", dict(n=3), reach=["frame","bad-length"], bound="two content-length headers"),
  J("ReaderCommand", dict(n=7), reach=["bad-command","frame"], bound="7 arbitrary bytes before the header section"),
  J("ReaderCutAnywhere", dict(blen=2), reach=["end"], bound="a frame with a 2-byte body cut at every point"),
  J("FrameBig", reach=["end"], max_steps=60000000, bound="frames of 400 headers, names and values of 9000 bytes, bodies of 40,000 bytes, one byte of them arbitrary; buffers of 16 and 4096 bytes"),
 ],
 thorough=[
  J("ReaderAny", dict(n=8), reach=["heart-beat","bad-command","truncated"], bound="8 arbitrary bytes"),
  J("ReaderHeaders", dict(n=10,cmd=0), reach=["frame","bad-format","truncated","undefined-escape"], bound="ACK and 10 arbitrary bytes"),
  J("ReaderHeaders", dict(n=8,cmd=2,rbuf=16), reach=["frame"], bound="MESSAGE and 8 arbitrary bytes, 16-byte buffer"),
  J("ReaderHeaderLine", dict(n=7,tail=2), reach=["frame","bad-format","undefined-escape"], bound="a header section of 7 arbitrary bytes"),
  J("ReaderLength", dict(v=3,n=8), reach=["frame","bad-length","bad-format","truncated"], bound="content-length of 3 arbitrary bytes, then 8 arbitrary bytes"),
  J("ReaderLengthTwice", dict(n=6), reach=["frame","bad-length"], bound="two content-length headers"),
  J("ReaderCommand", dict(n=12), reach=["bad-command","frame"], bound="12 arbitrary bytes before the header section"),
  J("ReaderCutAnywhere", dict(blen=5), reach=["end"], bound="a frame with a 5-byte body cut at every point"),
  J("FrameBig", reach=["end"], max_steps=60000000, bound="frames of 400 headers, names and values of 9000 bytes, bodies of 40,000 bytes, one byte of them arbitrary; buffers of 16 and 4096 bytes"),
 ],
 bounds=["large frames (up to 400 headers, 9000-byte names and values, 40,000-byte bodies) with one arbitrary byte","streams of up to 12 arbitrary bytes after a concrete prefix; content-length values beyond 128 are outside the bound (the allocation is not modelled)"],
 assumptions=STUBS+["a header with an escape sequence STOMP does not define may be rejected or passed through: the harness accepts both and stops there"])

prop("C03", "Decoding does not depend on how the bytes arrive, and I/O errors surface",
 "However the bytes of a stream are divided into reads of the underlying connection (single bytes, empty reads, data together with the final error, splits inside escapes, line ends or bodies), the Reader returns the same frames and heart-beats. When the connection fails, every complete item received before is still returned and then the connection's own error, never a partial frame.",
 ["inputs","fault_sequences"], "every division of a stream into reads and every point and kind of failure",
 "reader_test.go feeds whole strings and uses a fixed one-byte reader at most; the divisions and failure points are exponential in number.",
 ["frame/reader.go"],
 [("the body loop and the terminator check of Reader.Read","frame/reader.go"),("readLine","frame/reader.go")],
 ["frame.Reader.Read on an io.Reader that returns arbitrary pieces"])
check("C03",
 quick=[
  J("ReaderChunks", dict(stream=0,zeros=1), reach=["frame","heart-beat","truncated"], bound="heart-beats around one frame, every division into reads, one empty read, every cut, 2 errors, with the data or after it"),
  J("ReaderChunks", dict(stream=1,zeros=1), reach=["frame","heart-beat","truncated"], bound="a content-length frame, every division of everything after the number"),
  J("ReaderSplit", dict(blen=2), reach=["frame","heart-beat","truncated"], bound="two frames with arbitrary bytes, every pair of split points, 16-byte buffer"),
  J("ReaderLarge", dict(n=40), reach=["frame","truncated"], bound="header and body larger than the 16-byte buffer, an arbitrary byte at every position"),
 ],
 thorough=[
  J("ReaderChunks", dict(stream=0,zeros=2), reach=["frame","heart-beat","truncated"], bound="as quick, two empty reads"),
  J("ReaderChunks", dict(stream=1,zeros=2), reach=["frame","heart-beat","truncated"], bound="as quick, two empty reads"),
  J("ReaderChunks", dict(stream=2,zeros=1), reach=["frame","heart-beat","truncated"], bound="two frames and a heart-beat, every division of the last 13 bytes"),
  J("ReaderSplit", dict(blen=4), reach=["frame","heart-beat","truncated"], bound="4-byte body"),
  J("ReaderLarge", dict(n=80), reach=["frame","truncated"], bound="80-byte header and body"),
 ],
 bounds=["streams of up to 30 bytes; arbitrary divisions of up to 13 of them, and every pair of split points in 40-byte streams"],
 assumptions=STUBS+["the connection keeps to the io.Reader contract and does not return 100 empty reads in a row"])

prop("C04", "The Writer delivers exactly one well-formed encoding, or an error",
 "A successful Write has handed to the underlying connection exactly the frame's encoding (command line, one line per header with names and values escaped, blank line, body, NUL) or one newline for a heart-beat, with nothing held back. Header contents can never add or split lines, the frame itself is not modified, and when the connection fails at any byte the Write that loses data returns the connection's error, with only a prefix of the right bytes delivered and no later Write claiming success.",
 ["inputs","fault_sequences"], "every frame and every byte position at which the connection fails",
 "writer_test.go compares a few frames written to a healthy buffer; failures at every byte and arbitrary header contents are not reached.",
 ["frame/writer.go","frame/encode.go"],
 [("Writer.Write: error checks and the final Flush","frame/writer.go")],
 ["bytes and errors seen by the io.Writer under frame.Writer"])
check("C04",
 quick=[
  J("WriterBytes", dict(nh=1,klen=1,vlen=2,blen=2), reach=["end"], bound="1 header (name 1, value <= 2), body <= 2 arbitrary bytes, heart-beat, same frame again"),
  J("WriterBytes", dict(nh=2,klen=1,vlen=1,blen=1,wbuf=16), reach=["end"], bound="2 headers, 16-byte buffer"),
  J("WriterNoInjection", dict(klen=2,vlen=3), reach=["end"], bound="name of 2 and value of 3 arbitrary bytes"),
  J("WriterFault", dict(vlen=1,blen=2,frames=2,limit=70), reach=["fault","no-fault"], bound="failure at each of the first 70 bytes, bodies below and above the 16-byte buffer"),
  J("FrameBig", reach=["end"], max_steps=60000000, bound="frames of 400 headers, names and values of 9000 bytes, bodies of 40,000 bytes, one byte of them arbitrary; buffers of 16 and 4096 bytes"),
 ],
 thorough=[
  J("WriterBytes", dict(nh=1,klen=2,vlen=4,blen=2), reach=["end"], bound="name <= 2, value <= 4"),
  J("WriterBytes", dict(nh=2,klen=1,vlen=2,blen=1,wbuf=16), reach=["end"], bound="2 headers, 16-byte buffer"),
  J("WriterNoInjection", dict(klen=3,vlen=4), reach=["end"], bound="name of 3 and value of 4 arbitrary bytes"),
  J("WriterFault", dict(vlen=2,blen=3,frames=3,limit=200), reach=["fault","no-fault"], bound="failure at each of the first 200 bytes"),
  J("WriterFault", dict(vlen=2,blen=2,frames=2,limit=130,wbuf=4096), reach=["fault","no-fault"], bound="as above, default buffer"),
  J("FrameBig", reach=["end"], max_steps=60000000, bound="frames of 400 headers, names and values of 9000 bytes, bodies of 40,000 bytes, one byte of them arbitrary; buffers of 16 and 4096 bytes"),
 ],
 bounds=["large frames (up to 400 headers, 9000-byte names and values, 40,000-byte bodies) with one arbitrary byte","up to 2 headers, names <= 3, values <= 4, bodies <= 3 arbitrary bytes (plus 40 fixed ones)"],
 assumptions=STUBS+["the connection keeps to the io.Writer contract (a short count comes with an error)"])

prop("C05", "Headers are an ordered multimap and clones are independent",
 "After any history of Add, Set, Del, AddHeader and construction a Header holds exactly the entries of an ordered list of pairs: Add appends, Set replaces the first entry of that name or appends, Del removes every entry of that name, Get/Contains/GetAll/GetAt/Len read it back in order. A clone of a header or frame equals the original and shares no memory with it: no later change of either is visible in the other.",
 ["inputs","histories"], "every history of operations with arbitrary names",
 "header_test.go runs one fixed history; frame_test.go clones one frame without then changing both sides.",
 ["frame/header.go","frame/frame.go"],
 [("Header's operations","frame/header.go"),("Frame.Clone, Header.Clone","frame/frame.go")],
 ["frame.Header, frame.Frame.Clone"])
check("C05",
 quick=[
  J("HeaderOps", dict(n=3), reach=["end"], bound="3 operations on 3 initial headers, names of one arbitrary byte, an arbitrary name looked up"),
  J("HeaderClone", {}, reach=["end"], bound="a frame with 2-3 headers and body of up to 2 arbitrary bytes, 4 kinds of change on either side"),
 ],
 thorough=[
  J("HeaderOps", dict(n=4), reach=["end"], bound="4 operations"),
  J("HeaderClone", {}, reach=["end"], bound="as quick"),
 ],
 bounds=["histories of up to 4 operations; one-byte names (the code compares names with ==, so their length does not matter to it)"],
 assumptions=STUBS)

prop("C06", "Numeric headers are parsed exactly",
 "content-length is accepted exactly when it is a plain decimal number below 2^32, and its value is then that number; ParseHeartBeat accepts exactly two decimal numbers separated by one comma whose milliseconds fit a time.Duration, and returns exactly those durations, never negative or wrapped ones. Everything else is an error.",
 ["inputs"], "every header text",
 "heartbeat_test.go and header_test.go try about a dozen texts; overflow and rejection must hold for all of them.",
 ["frame/header.go","frame/heartbeat.go"],
 [("Header.ContentLength","frame/header.go"),("ParseHeartBeat, maxMilliseconds","frame/heartbeat.go")],
 ["frame.Header.ContentLength, frame.ParseHeartBeat"])
check("C06",
 quick=[J("ContentLengthAny", dict(n=k), reach=["invalid"], bound="%d arbitrary bytes"%k) for k in (0,1,3,10,11)]
 +[J("HeartBeatAny", dict(n=k), reach=["invalid"], bound="%d arbitrary bytes"%k) for k in (0,3,6)]
 +[J("HeartBeatDigits", dict(a=13,b=1), reach=["valid","invalid"], bound="a 13-digit and a 1-digit number, all digits arbitrary"),
   J("HeartBeatDigits", dict(a=1,b=14), reach=["valid","invalid"], bound="a 1-digit and a 14-digit number, all digits arbitrary"),
   J("HeartBeatBig", dict(d=2), reach=["valid","invalid"], bound="numbers around 2^63, 2^64 and the Duration limit, last 2 digits arbitrary")],
 thorough=[J("ContentLengthAny", dict(n=k), reach=["invalid"], bound="%d arbitrary bytes"%k) for k in (0,1,2,3,4,5,6,8,10,11,12,13,20)]
 +[J("HeartBeatAny", dict(n=k), reach=["invalid"], bound="%d arbitrary bytes"%k) for k in (0,1,2,3,4,5,6,7,8,10)]
 +[J("HeartBeatDigits", dict(a=16,b=1), reach=["valid","invalid"], bound="16 and 1 digits"),
   J("HeartBeatDigits", dict(a=2,b=15), reach=["valid","invalid"], bound="2 and 15 digits"),
   J("HeartBeatDigits", dict(a=12,b=12), reach=["valid"], bound="12 and 12 digits"),
   J("HeartBeatBig", dict(d=3), reach=["valid","invalid"], bound="last 3 digits arbitrary")],
 bounds=["content-length texts of up to 20 bytes; heart-beat texts of up to 10 arbitrary bytes, digit strings of up to 16 and, around the integer limits, 20 digits"],
 assumptions=STUBS)
