package vh

import (
	"bytes"
	"errors"
	"io"
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// reference model of the STOMP wire format, written from the specification
// ---------------------------------------------------------------------------

var allCommands = []string{
	"CONNECT", "STOMP", "CONNECTED",
	"SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT",
	"MESSAGE", "RECEIPT", "ERROR",
}

func refEscape(dst []byte, s string) []byte {
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\':
			dst = append(dst, '\\', '\\')
		case '\r':
			dst = append(dst, '\\', 'r')
		case '\n':
			dst = append(dst, '\\', 'n')
		case ':':
			dst = append(dst, '\\', 'c')
		default:
			dst = append(dst, c)
		}
	}
	return dst
}

// refUnescape decodes an encoded header text; ok is false where the text has
// an escape sequence the specification does not define.
func refUnescape(b []byte) (s string, ok bool) {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' {
			out = append(out, b[i])
			continue
		}
		if i+1 >= len(b) {
			return "", false
		}
		i++
		switch b[i] {
		case 'r':
			out = append(out, '\r')
		case 'n':
			out = append(out, '\n')
		case 'c':
			out = append(out, ':')
		case '\\':
			out = append(out, '\\')
		default:
			return "", false
		}
	}
	return string(out), true
}

type kv struct{ k, v string }

func refEncode(cmd string, hs []kv, body []byte) []byte {
	var b []byte
	b = append(b, cmd...)
	b = append(b, '\n')
	for _, h := range hs {
		b = refEscape(b, h.k)
		b = append(b, ':')
		b = refEscape(b, h.v)
		b = append(b, '\n')
	}
	b = append(b, '\n')
	b = append(b, body...)
	return append(b, 0)
}

func headersOf(f *frame.Frame) []kv {
	var hs []kv
	if f.Header == nil {
		return nil
	}
	for i := 0; i < f.Header.Len(); i++ {
		k, v := f.Header.GetAt(i)
		hs = append(hs, kv{k, v})
	}
	return hs
}

func sameHeaders(a, b []kv) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = vrt.And(eq, vrt.And(vrt.EqStr(a[i].k, b[i].k), vrt.EqStr(a[i].v, b[i].v)))
	}
	return eq
}

// fail modes of the reference decoder
const (
	rFrame = iota
	rBeat
	rBadCommand
	rBadFormat
	rBadLength
	rTruncated
	rUnspecified // an undefined escape sequence: either a rejection or the literal text
)

type refResult struct {
	kind int
	cmd  string
	hs   []kv
	body []byte
	next int // position after the item
}

func refLine(d []byte, pos int) (line []byte, next int, ok bool) {
	for i := pos; i < len(d); i++ {
		if d[i] == '\n' {
			end := i
			if end > pos && d[end-1] == '\r' {
				end--
			}
			return d[pos:end], i + 1, true
		}
	}
	return nil, len(d), false
}

// refLength parses a content-length value: decimal digits, below 2^32.
func refLength(s string) (int, bool) {
	if len(s) == 0 {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + uint64(c-'0')
		if n > 1<<32-1 {
			return 0, false
		}
	}
	return int(n), true
}

func refDecode(d []byte, pos int) refResult {
	line, p, ok := refLine(d, pos)
	if !ok {
		return refResult{kind: rTruncated}
	}
	if len(line) == 0 {
		return refResult{kind: rBeat, next: p}
	}
	r := refResult{kind: rFrame}
	known := false
	for _, c := range allCommands {
		if string(line) == c {
			r.cmd = c
			known = true
			break
		}
	}
	if !known {
		return refResult{kind: rBadCommand}
	}
	for {
		line, p, ok = refLine(d, p)
		if !ok {
			return refResult{kind: rTruncated}
		}
		if len(line) == 0 {
			break
		}
		c := -1
		for i, b := range line {
			if b == ':' {
				c = i
				break
			}
		}
		if c <= 0 {
			return refResult{kind: rBadFormat}
		}
		k, ok1 := refUnescape(line[:c])
		v, ok2 := refUnescape(line[c+1:])
		if !ok1 || !ok2 {
			return refResult{kind: rUnspecified}
		}
		r.hs = append(r.hs, kv{k, v})
	}
	for _, h := range r.hs {
		if h.k == "content-length" {
			n, ok := refLength(h.v)
			if !ok {
				return refResult{kind: rBadLength}
			}
			if p+n >= len(d) {
				return refResult{kind: rTruncated}
			}
			if d[p+n] != 0 {
				return refResult{kind: rBadFormat}
			}
			r.body = d[p : p+n]
			r.next = p + n + 1
			return r
		}
	}
	for i := p; i < len(d); i++ {
		if d[i] == 0 {
			r.body = d[p:i]
			r.next = i + 1
			return r
		}
	}
	return refResult{kind: rTruncated}
}

// checkStream reads everything rd delivers and compares it with the reference
// decoding of data. readErr is the error that follows the data.
func checkStream(rd *frame.Reader, data []byte, readErr error, maxItems int) {
	pos := 0
	for i := 0; i < maxItems; i++ {
		want := refDecode(data, pos)
		got, err := rd.Read()
		vrt.Observe("kind", want.kind)
		switch want.kind {
		case rUnspecified:
			vrt.Reach("undefined-escape")
			return
		case rFrame:
			vrt.Assert(err == nil, "Reader.Read: error on a well-formed frame")
			vrt.Assert(got != nil, "Reader.Read: a frame is taken for a heart-beat")
			vrt.Assert(vrt.EqStr(got.Command, want.cmd), "Reader.Read: wrong command")
			vrt.Assert(sameHeaders(headersOf(got), want.hs), "Reader.Read: wrong headers")
			vrt.Assert(len(got.Body) == len(want.body), "Reader.Read: wrong body length")
			vrt.Assert(vrt.EqBytes(got.Body, want.body), "Reader.Read: wrong body")
			vrt.Observe("body", got.Body)
			vrt.Reach("frame")
			pos = want.next
		case rBeat:
			vrt.Assert(err == nil, "Reader.Read: error on a heart-beat")
			vrt.Assert(got == nil, "Reader.Read: a heart-beat is taken for a frame")
			vrt.Reach("heart-beat")
			pos = want.next
		default:
			vrt.Assert(err != nil, "Reader.Read: no error on a malformed or truncated frame")
			vrt.Assert(got == nil, "Reader.Read: a frame is returned together with an error")
			switch want.kind {
			case rBadCommand:
				vrt.Assert(err == frame.ErrInvalidCommand, "Reader.Read: an unknown command is not reported as ErrInvalidCommand")
				vrt.Reach("bad-command")
			case rBadFormat:
				vrt.Assert(err == frame.ErrInvalidFrameFormat, "Reader.Read: a malformed frame is not reported as ErrInvalidFrameFormat")
				vrt.Reach("bad-format")
			case rBadLength:
				vrt.Reach("bad-length")
			case rTruncated:
				if readErr != nil {
					vrt.Assert(err == readErr, "Reader.Read: the error of the underlying reader is not returned")
				}
				vrt.Reach("truncated")
			}
			return
		}
	}
	vrt.Reach("all-items")
}

// ---------------------------------------------------------------------------
// C01: what Writer writes, Reader reads back
// ---------------------------------------------------------------------------

// arbFrame builds an arbitrary frame that satisfies the Writer's contract.
func arbFrame(p string, nh, klen, vlen, blen int) (*frame.Frame, []kv) {
	f := frame.New("MESSAGE")
	if vrt.Param("onecmd", 0) == 0 {
		f.Command = allCommands[vrt.Choose(p+"cmd", len(allCommands))]
	}
	var hs []kv
	n := vrt.Choose(p+"nh", nh+1)
	for i := 0; i < n; i++ {
		k := vrt.String(p+"k"+strconv.Itoa(i), 1+vrt.Choose(p+"klen"+strconv.Itoa(i), klen))
		v := vrt.String(p+"v"+strconv.Itoa(i), vrt.Choose(p+"vlen"+strconv.Itoa(i), vlen+1))
		hs = append(hs, kv{k, v})
		f.Header.Add(k, v)
	}
	body := vrt.Bytes(p+"body", vrt.Choose(p+"blen", blen+1))
	if vrt.Choose(p+"cl", 2) == 1 {
		// with a content-length header the body may hold any byte
		hs = append(hs, kv{"content-length", strconv.Itoa(len(body))})
		f.Header.Add("content-length", strconv.Itoa(len(body)))
	} else {
		// without one it ends at its first NUL
		for _, b := range body {
			vrt.Assume(b != 0)
		}
	}
	if len(body) > 0 {
		f.Body = body
	}
	return f, hs
}

// RoundTrip: one arbitrary frame.
func RoundTrip() {
	f, hs := arbFrame("", vrt.Param("nh", 1), vrt.Param("klen", 1), vrt.Param("vlen", 2), vrt.Param("blen", 2))
	cmd, body := f.Command, append([]byte(nil), f.Body...)
	var buf bytes.Buffer
	err := frame.NewWriterSize(&buf, vrt.Param("wbuf", 4096)).Write(f)
	vrt.Assert(err == nil, "Writer.Write: error")
	rd := frame.NewReaderSize(bytes.NewReader(buf.Bytes()), vrt.Param("rbuf", 4096))
	g, err := rd.Read()
	vrt.Assert(err == nil, "round trip: Reader.Read fails on a written frame")
	vrt.Assert(g != nil, "round trip: a frame is read back as a heart-beat")
	vrt.Assert(g.Command == cmd, "round trip: command differs")
	vrt.Assert(sameHeaders(headersOf(g), hs), "round trip: headers differ")
	vrt.Assert(vrt.EqBytes(g.Body, body), "round trip: body differs")
	vrt.Observe("cmd", g.Command)
	vrt.Observe("body", g.Body)
	g, err = rd.Read()
	vrt.Assert(err == io.EOF && g == nil, "round trip: bytes are left over after the frame")
	vrt.Reach("end")
}

// RoundTripSeq: a sequence of frames and heart-beats on one connection.
func RoundTripSeq() {
	n := vrt.Param("n", 3)
	var buf bytes.Buffer
	w := frame.NewWriterSize(&buf, vrt.Param("wbuf", 4096))
	type item struct {
		f    *frame.Frame
		hs   []kv
		body []byte
	}
	var items []item
	for i := 0; i < n; i++ {
		if vrt.Choose("beat"+strconv.Itoa(i), 2) == 1 {
			vrt.Assert(w.Write(nil) == nil, "Writer.Write: error on a heart-beat")
			items = append(items, item{})
			continue
		}
		f := frame.New("SEND")
		v := vrt.String("v"+strconv.Itoa(i), vrt.Param("vlen", 1))
		f.Header.Add("k", v)
		body := vrt.Bytes("b"+strconv.Itoa(i), vrt.Choose("blen"+strconv.Itoa(i), vrt.Param("blen", 2)+1))
		f.Body = body
		f.Header.Add("content-length", strconv.Itoa(len(body)))
		hs := headersOf(f)
		vrt.Assert(w.Write(f) == nil, "Writer.Write: error")
		items = append(items, item{f, hs, body})
	}
	rd := frame.NewReaderSize(bytes.NewReader(buf.Bytes()), vrt.Param("rbuf", 4096))
	var got []*frame.Frame
	for i := range items {
		g, err := rd.Read()
		vrt.Assert(err == nil, "round trip: Reader.Read fails in a sequence of frames")
		vrt.Assert((g == nil) == (items[i].f == nil), "round trip: frames and heart-beats are out of step")
		got = append(got, g)
	}
	// compare at the end: a frame that was read must not change when later ones are
	for i, g := range got {
		if g != nil {
			vrt.Assert(sameHeaders(headersOf(g), items[i].hs), "round trip: headers differ in a sequence")
			vrt.Assert(vrt.EqBytes(g.Body, items[i].body), "round trip: body differs in a sequence")
		}
	}
	g, err := rd.Read()
	vrt.Assert(err == io.EOF && g == nil, "round trip: bytes are left over after the frames")
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C02: the Reader against the reference decoder, on arbitrary bytes
// ---------------------------------------------------------------------------

// ReaderAny: every byte arbitrary.
func ReaderAny() {
	data := vrt.Bytes("d", vrt.Param("n", 5))
	checkStream(frame.NewReader(bytes.NewReader(data)), data, io.EOF, len(data)+1)
}

// ReaderHeaders: a valid command, then arbitrary bytes.
func ReaderHeaders() {
	pre := []string{"ACK\n", "SEND\r\n", "MESSAGE\n"}[vrt.Param("cmd", 0)]
	data := append([]byte(pre), vrt.Bytes("d", vrt.Param("n", 5))...)
	checkStream(frame.NewReaderSize(bytes.NewReader(data), vrt.Param("rbuf", 4096)), data, io.EOF, 3)
}

// ReaderHeaderLine: one header line with arbitrary content, framed by a valid
// command and an end of frame, then an arbitrary tail.
func ReaderHeaderLine() {
	data := append([]byte("SEND\n"), vrt.Bytes("h", vrt.Param("n", 4))...)
	data = append(data, "\n\nB\x00"...)
	data = append(data, vrt.Bytes("t", vrt.Param("tail", 1))...)
	checkStream(frame.NewReader(bytes.NewReader(data)), data, io.EOF, 4)
}

// ReaderLength: a content-length header with an arbitrary value, then
// arbitrary bytes.
func ReaderLength() {
	data := []byte("SEND\ncontent-length:")
	data = append(data, vrt.Bytes("v", vrt.Param("v", 2))...)
	data = append(data, "\n\n"...)
	data = append(data, vrt.Bytes("d", vrt.Param("n", 4))...)
	checkStream(frame.NewReaderSize(bytes.NewReader(data), vrt.Param("rbuf", 4096)), data, io.EOF, 3)
}

// ReaderLengthTwice: a repeated content-length header: the first entry counts.
func ReaderLengthTwice() {
	data := []byte("MESSAGE\ncontent-length:")
	data = append(data, vrt.Bytes("v", 1)...)
	data = append(data, "\ncontent-length:"...)
	data = append(data, vrt.Bytes("w", 1)...)
	data = append(data, "\n\n"...)
	data = append(data, vrt.Bytes("d", vrt.Param("n", 3))...)
	checkStream(frame.NewReader(bytes.NewReader(data)), data, io.EOF, 2)
}

// ReaderCommand: an arbitrary command line of a given length.
func ReaderCommand() {
	data := append(vrt.Bytes("c", vrt.Param("n", 7)), "\nk:v\n\nbody\x00"...)
	vrt.Assume(data[0] != '\n')
	checkStream(frame.NewReader(bytes.NewReader(data)), data, io.EOF, 1)
}

// ReaderCutAnywhere: a valid frame cut at an arbitrary point never yields a
// frame.
func ReaderCutAnywhere() {
	body := vrt.Bytes("b", vrt.Param("blen", 2))
	var hs []kv
	if vrt.Choose("cl", 2) == 1 {
		hs = append(hs, kv{"content-length", strconv.Itoa(len(body))})
	} else {
		for _, b := range body {
			vrt.Assume(b != 0)
		}
	}
	hs = append(hs, kv{"a", vrt.String("v", 1)})
	full := refEncode("SEND", hs, body)
	cut := vrt.IntRange("cut", 1, len(full)-1)
	cut = vrt.Concrete(cut)
	rd := frame.NewReader(bytes.NewReader(full[:cut]))
	f, err := rd.Read()
	vrt.Assert(f == nil, "Reader.Read: a truncated frame is returned")
	vrt.Assert(err != nil, "Reader.Read: a truncated frame is not reported")
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C03: the result does not depend on how the bytes arrive
// ---------------------------------------------------------------------------

var errBroken = errors.New("broken pipe of the harness")

// chunkReader delivers data in arbitrary pieces and then fails.
type chunkReader struct {
	data     []byte
	pos      int
	err      error
	zeros    int // how many empty reads are still allowed
	together int // 1: the last piece comes together with the error
	max      int // largest piece
	lead     int // bytes that come in whole pieces
	n        int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.pos >= len(c.data) {
		return 0, c.err
	}
	max := len(c.data) - c.pos
	if len(p) < max {
		max = len(p)
	}
	if max > c.max {
		max = c.max
	}
	c.n++
	if c.pos < c.lead {
		if max > c.lead-c.pos {
			max = c.lead - c.pos
		}
		copy(p, c.data[c.pos:c.pos+max])
		c.pos += max
		return max, nil
	}
	lo := 1
	if c.zeros > 0 {
		lo = 0
	}
	k := lo
	if max > lo {
		k = vrt.Choose("chunk"+strconv.Itoa(c.n), max-lo+1) + lo
	}
	if k == 0 {
		c.zeros--
	}
	copy(p, c.data[c.pos:c.pos+k])
	c.pos += k
	if c.pos >= len(c.data) && c.together == 1 {
		return k, c.err
	}
	return k, nil
}

// ReaderChunks: a fixed stream of frames, of which a tail arrives in
// arbitrary pieces and is cut at an arbitrary point, with an arbitrary error.
func ReaderChunks() {
	data, lead := []byte("\nACK\n\n\x00\r\n"), 0
	switch vrt.Param("stream", 0) {
	case 1:
		data = []byte("SEND\ncontent-length:2\r\n\r\n\n\x00\x00\r\n")
		lead = 20
	case 2:
		data = []byte("MESSAGE\na:b\n\nhi\x00\nACK\n\n\x00")
		lead = 10
	}
	cut := vrt.Concrete(vrt.IntRange("cut", lead, len(data)))
	c := &chunkReader{data: data[:cut], err: io.EOF, max: vrt.Param("max", 100), zeros: vrt.Choose("zeros", vrt.Param("zeros", 0)+1), lead: lead}
	if vrt.Choose("err", 2) == 1 {
		c.err = errBroken
	}
	c.together = vrt.Choose("together", 2)
	checkStream(frame.NewReaderSize(c, vrt.Param("rbuf", 16)), data[:cut], c.err, 6)
	vrt.Reach("end")
}

// splitReader delivers the data in three pieces with arbitrary boundaries.
type splitReader struct {
	pieces [][]byte
	err    error
}

func (c *splitReader) Read(p []byte) (int, error) {
	for len(c.pieces) > 0 && len(c.pieces[0]) == 0 {
		c.pieces = c.pieces[1:]
	}
	if len(c.pieces) == 0 {
		return 0, c.err
	}
	n := copy(p, c.pieces[0])
	c.pieces[0] = c.pieces[0][n:]
	return n, nil
}

// ReaderSplit: arbitrary body and header bytes, two arbitrary split points.
func ReaderSplit() {
	body := vrt.Bytes("b", vrt.Param("blen", 2))
	v := vrt.String("v", 1)
	data := refEncode("SEND", []kv{{"content-length", strconv.Itoa(len(body))}, {"k", v}}, body)
	data = append(data, '\n')
	data = append(data, refEncode("ACK", []kv{{"id", v}}, nil)...)
	i := vrt.Concrete(vrt.IntRange("i", 0, len(data)))
	j := vrt.Concrete(vrt.IntRange("j", 0, len(data)))
	vrt.Assume(i <= j)
	s := &splitReader{pieces: [][]byte{append([]byte(nil), data[:i]...), append([]byte(nil), data[i:j]...), append([]byte(nil), data[j:]...)}, err: errBroken}
	checkStream(frame.NewReaderSize(s, vrt.Param("rbuf", 16)), data, errBroken, 5)
	vrt.Reach("end")
}

// ReaderLarge: frames larger than the read buffer.
func ReaderLarge() {
	n := vrt.Param("n", 40)
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i * 7)
	}
	at := vrt.Concrete(vrt.IntRange("at", 0, n-1))
	body[at] = vrt.Byte("x")
	long := make([]byte, n)
	for i := range long {
		long[i] = 'a'
	}
	long[at] = vrt.Byte("y")
	data := refEncode("SEND", []kv{{"content-length", strconv.Itoa(n)}, {"k", string(long)}}, body)
	data = append(data, refEncode("ACK", []kv{{"id", "1"}}, nil)...)
	c := &chunkReader{data: data, err: io.EOF, max: 1000}
	c.max = vrt.Choose("max", 3)*10 + 7
	s := &fixedChunks{data: data, size: c.max}
	checkStream(frame.NewReaderSize(s, vrt.Param("rbuf", 16)), data, io.EOF, 3)
	vrt.Reach("end")
}

type fixedChunks struct {
	data []byte
	size int
}

func (c *fixedChunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := c.size
	if n > len(c.data) {
		n = len(c.data)
	}
	n = copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

// ---------------------------------------------------------------------------
// C04: the bytes the Writer delivers
// ---------------------------------------------------------------------------

// faultWriter accepts limit bytes in all, then fails.
type faultWriter struct {
	got   []byte
	limit int
	calls int
	max   int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	room := w.limit - len(w.got)
	if room >= len(p) {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if room < 0 {
		room = 0
	}
	w.got = append(w.got, p[:room]...)
	return room, errBroken
}

// WriterBytes: the exact encoding, flushed at every Write; a second frame
// follows.
func WriterBytes() {
	f, hs := arbFrame("", vrt.Param("nh", 1), vrt.Param("klen", 1), vrt.Param("vlen", 2), vrt.Param("blen", 2))
	want := refEncode(f.Command, hs, f.Body)
	fw := &faultWriter{limit: 1 << 20}
	w := frame.NewWriterSize(fw, vrt.Param("wbuf", 4096))
	before := f.Clone()
	vrt.Assert(w.Write(f) == nil, "Writer.Write: error without a fault")
	vrt.Assert(len(fw.got) == len(want), "Writer.Write: not exactly the frame has reached the underlying writer")
	vrt.Assert(vrt.EqBytes(fw.got, want), "Writer.Write: wrong bytes")
	vrt.Assert(w.Write(nil) == nil, "Writer.Write: error on a heart-beat")
	want = append(want, '\n')
	vrt.Assert(vrt.EqBytes(fw.got, want), "Writer.Write: a heart-beat is not one newline")
	vrt.Assert(w.Write(f) == nil, "Writer.Write: error without a fault")
	want = append(want, want[:len(want)-1]...)
	vrt.Assert(vrt.EqBytes(fw.got, want), "Writer.Write: wrong bytes for the second frame")
	vrt.Assert(sameHeaders(headersOf(before), headersOf(f)) && vrt.EqBytes(before.Body, f.Body) && before.Command == f.Command, "Writer.Write: changes the frame")
	vrt.Observe("got", fw.got)
	vrt.Reach("end")
}

// WriterNoInjection: whatever a header holds, the frame keeps exactly one
// line per header: nothing can be injected.
func WriterNoInjection() {
	k := vrt.String("k", vrt.Param("klen", 2))
	v := vrt.String("v", vrt.Param("vlen", 2))
	f := frame.New("MESSAGE", k, v, "z", v)
	fw := &faultWriter{limit: 1 << 20}
	vrt.Assert(frame.NewWriter(fw).Write(f) == nil, "Writer.Write: error")
	lines, colons := 0, 0
	var bad bool
	for i, b := range fw.got {
		if b == '\n' {
			lines++
		}
		if b == ':' {
			colons++
		}
		if b == '\r' {
			bad = true
		}
		_ = i
	}
	vrt.Assert(lines == 4, "Writer.Write: a header value changes the line structure of the frame")
	vrt.Assert(colons == 2, "Writer.Write: a header value adds a separator")
	vrt.Assert(!bad, "Writer.Write: a raw carriage return is written")
	vrt.Reach("end")
}

// WriterFault: the underlying writer fails at an arbitrary byte.
func WriterFault() {
	f := frame.New("SEND", "k", vrt.String("v", vrt.Param("vlen", 1)))
	f.Body = vrt.Bytes("b", vrt.Param("blen", 2))
	if vrt.Choose("pad", 2) == 1 {
		// a body larger than the buffer
		for i := 0; i < 40; i++ {
			f.Body = append(f.Body, 'p')
		}
	}
	want := refEncode(f.Command, headersOf(f), f.Body)
	n := vrt.Param("frames", 2)
	var all []byte
	for i := 0; i < n; i++ {
		all = append(all, want...)
		all = append(all, '\n')
	}
	limit := vrt.Concrete(vrt.IntRange("limit", 0, vrt.Param("limit", 70)))
	vrt.Assume(limit < len(all)+3)
	fw := &faultWriter{limit: limit}
	w := frame.NewWriterSize(fw, vrt.Param("wbuf", 16))
	done := 0
	for i := 0; i < 2*n; i++ {
		var err error
		size := len(want)
		if i%2 == 1 {
			err = w.Write(nil)
			size = 1
		} else {
			err = w.Write(f)
		}
		if err == nil {
			done += size
			vrt.Assert(done <= limit, "Writer.Write: reports success for bytes the underlying writer did not take")
			vrt.Assert(len(fw.got) == done, "Writer.Write: returns before the frame has been handed to the underlying writer")
		} else {
			vrt.Assert(done+size > limit, "Writer.Write: error without a fault")
			vrt.Assert(err == errBroken, "Writer.Write: the error of the underlying writer is not returned")
			vrt.Reach("fault")
			// what has been delivered is a prefix of the right bytes, and the
			// writer does not recover silently
			vrt.Assert(vrt.EqBytes(fw.got, all[:len(fw.got)]), "Writer.Write: wrong bytes before the fault")
			vrt.Assert(w.Write(f) != nil, "Writer.Write: reports success after a fault that lost bytes")
			return
		}
	}
	vrt.Assert(vrt.EqBytes(fw.got, all), "Writer.Write: wrong bytes")
	vrt.Reach("no-fault")
}

// ---------------------------------------------------------------------------
// C05: Header is an ordered multimap; Clone is independent
// ---------------------------------------------------------------------------

func refGet(hs []kv, k string) (string, bool) {
	for _, h := range hs {
		if h.k == k {
			return h.v, true
		}
	}
	return "", false
}

func checkHeader(h *frame.Header, hs []kv, probe string) {
	vrt.Assert(h.Len() == len(hs), "Header: wrong number of entries")
	eq := true
	for i := range hs {
		k, v := h.GetAt(i)
		eq = vrt.And(eq, vrt.And(vrt.EqStr(k, hs[i].k), vrt.EqStr(v, hs[i].v)))
	}
	vrt.Assert(eq, "Header: wrong entries or order")
	v, ok := h.Contains(probe)
	wv, wok := refGet(hs, probe)
	vrt.Assert(ok == wok, "Header.Contains: wrong answer")
	vrt.Assert(vrt.EqStr(v, wv), "Header.Contains: not the first entry of that name")
	vrt.Assert(vrt.EqStr(h.Get(probe), wv), "Header.Get: not the first entry of that name")
	var all []string
	for _, x := range hs {
		if x.k == probe {
			all = append(all, x.v)
		}
	}
	got := h.GetAll(probe)
	vrt.Assert(len(got) == len(all), "Header.GetAll: wrong number of values")
	for i := range got {
		vrt.Assert(vrt.EqStr(got[i], all[i]), "Header.GetAll: wrong values or order")
	}
}

// HeaderOps: an arbitrary history of operations against a list of pairs.
func HeaderOps() {
	n := vrt.Param("n", 4)
	h := frame.NewHeader()
	var hs []kv
	cnt := 0
	same := vrt.Choose("same", 2) == 1 // all values are equal
	val := func() string {
		cnt++
		if same {
			return "v"
		}
		return "v" + strconv.Itoa(cnt)
	}
	init := vrt.Choose("init", 3)
	if init == 1 {
		h = frame.NewHeader("a", "1", "b", "2")
		hs = []kv{{"a", "1"}, {"b", "2"}}
	} else if init == 2 {
		entries := []string{"a", "1", "b"}
		h = frame.NewHeader(entries...)
		entries[0], entries[1] = "x", "y"
		hs = []kv{{"a", "1"}, {"b", ""}}
	}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		k := vrt.String("k"+s, 1)
		switch vrt.Choose("op"+s, 4) {
		case 0:
			v := val()
			h.Add(k, v)
			hs = append(hs, kv{k, v})
		case 1:
			v := val()
			h.Set(k, v)
			set := false
			for j := range hs {
				if hs[j].k == k {
					hs[j].v = v
					set = true
					break
				}
			}
			if !set {
				hs = append(hs, kv{k, v})
			}
		case 2:
			h.Del(k)
			var out []kv
			for _, x := range hs {
				if x.k != k {
					out = append(out, x)
				}
			}
			hs = out
		case 3:
			o := frame.NewHeader(k, val())
			h.AddHeader(o)
			hs = append(hs, kv{k, o.Get(k)})
			h.AddHeader(nil)
			o.Set(k, "changed")
		}
	}
	checkHeader(h, hs, vrt.String("probe", 1))
	vrt.Reach("end")
}

// HeaderClone: a clone (of a header or a frame) and its original never share
// later changes.
func HeaderClone() {
	f := frame.New("SEND", "a", "1", "b", "2")
	if vrt.Choose("grow", 2) == 1 {
		f.Header.Add("c", "3") // spare capacity in the list
	}
	bl := vrt.Choose("blen", 3)
	if bl > 0 {
		f.Body = vrt.Bytes("body", bl)
		if vrt.Choose("cap", 2) == 1 {
			f.Body = append(f.Body, 0, 0, 0)[:bl]
		}
	}
	hs := headersOf(f)
	body := append([]byte(nil), f.Body...)
	c := f.Clone()
	vrt.Assert(c != f && c.Header != f.Header, "Frame.Clone: returns the frame itself")
	vrt.Assert(c.Command == f.Command, "Frame.Clone: command differs")
	vrt.Assert(sameHeaders(headersOf(c), hs), "Frame.Clone: headers differ")
	vrt.Assert(vrt.EqBytes(c.Body, body), "Frame.Clone: body differs")
	vrt.Assert((c.Body == nil) == (f.Body == nil), "Frame.Clone: a missing body differs")
	a, b := f, c
	if vrt.Choose("side", 2) == 1 {
		a, b = c, f
	}
	a.Command = "OTHER"
	switch vrt.Choose("op", 4) {
	case 0:
		a.Header.Add("z", "9")
		b.Header.Add("y", "8")
		k, v := a.Header.GetAt(a.Header.Len() - 1)
		vrt.Assert(k == "z" && v == "9", "Frame.Clone: an entry added to one shows up in the other")
		b.Header.Del("y")
	case 1:
		a.Header.Set(vrt.String("k", 1), "9")
	case 2:
		a.Header.Del(vrt.String("k", 1))
	case 3:
		for i := range a.Body {
			a.Body[i] = vrt.Byte("nb")
		}
		if len(a.Body) > 0 {
			a.Body = append(a.Body, 'q')
			b.Body = append(b.Body, 'r')
			vrt.Assert(a.Body[len(a.Body)-1] == 'q', "Frame.Clone: bodies share memory")
			b.Body = b.Body[:len(b.Body)-1]
		}
	}
	vrt.Assert(sameHeaders(headersOf(b), hs), "Frame.Clone: a change of one changes the other's headers")
	vrt.Assert(vrt.EqBytes(b.Body, body), "Frame.Clone: a change of one changes the other's body")
	// a frame without a header can be cloned, too
	n := (&frame.Frame{Command: "X"}).Clone()
	vrt.Assert(n.Command == "X" && n.Header == nil && n.Body == nil, "Frame.Clone: invents parts")
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C06: numeric headers
// ---------------------------------------------------------------------------

// ContentLengthAny: an arbitrary value.
func ContentLengthAny() {
	s := vrt.String("s", vrt.Param("n", 3))
	h := frame.NewHeader("content-length", s, "content-length", "7")
	v, ok, err := h.ContentLength()
	wv, wok := refLength(s)
	vrt.Assert(ok, "Header.ContentLength: the header is reported missing")
	vrt.Assert((err == nil) == wok, "Header.ContentLength: accepts a malformed value or rejects a valid one")
	if wok {
		vrt.Assert(v == wv, "Header.ContentLength: wrong value")
		vrt.Assert(v >= 0, "Header.ContentLength: negative")
		vrt.Reach("valid")
	} else {
		vrt.Reach("invalid")
	}
	_, ok, err = frame.NewHeader("Content-Length", s).ContentLength()
	vrt.Assert(!ok && err == nil, "Header.ContentLength: found where there is none")
}

// refNumber: decimal digits with a value of at most max.
func refNumber(s string, max uint64) (uint64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if n > max/10 || n*10+d > max {
			return 0, false
		}
		n = n*10 + d
	}
	return n, true
}

func checkHeartBeat(s string) {
	c := -1
	for i := 0; i < len(s); i++ {
		if s[i] == ',' {
			c = i
			break
		}
	}
	const max = uint64(1<<63-1) / 1000000
	var x, y uint64
	ok := false
	if c >= 0 {
		var ok1, ok2 bool
		x, ok1 = refNumber(s[:c], max)
		y, ok2 = refNumber(s[c+1:], max)
		ok = ok1 && ok2
	}
	a, b, err := frame.ParseHeartBeat(s)
	vrt.Assert((err == nil) == ok, "ParseHeartBeat: accepts a malformed value or rejects a valid one")
	if ok {
		vrt.Assert(a == time.Duration(x)*time.Millisecond, "ParseHeartBeat: wrong first value")
		vrt.Assert(b == time.Duration(y)*time.Millisecond, "ParseHeartBeat: wrong second value")
		vrt.Assert(a >= 0 && b >= 0, "ParseHeartBeat: negative")
		vrt.Reach("valid")
	} else {
		vrt.Assert(err == frame.ErrInvalidHeartBeat, "ParseHeartBeat: wrong error")
		vrt.Assert(a == 0 && b == 0, "ParseHeartBeat: values together with an error")
		vrt.Reach("invalid")
	}
}

// HeartBeatAny: an arbitrary value.
func HeartBeatAny() {
	checkHeartBeat(vrt.String("s", vrt.Param("n", 4)))
}

// HeartBeatDigits: two long numbers.
func HeartBeatDigits() {
	a := vrt.String("a", vrt.Param("a", 13))
	b := vrt.String("b", vrt.Param("b", 1))
	for _, s := range []string{a, b} {
		for i := 0; i < len(s); i++ {
			vrt.Assume(vrt.And(s[i] >= '0', s[i] <= '9'))
		}
	}
	checkHeartBeat(a + "," + b)
}

// HeartBeatBig: numbers around the limits of 64-bit integers and of
// time.Duration.
func HeartBeatBig() {
	pre := []string{"92233720368547758", "18446744073709551", "9223372036", "00000000000000000", "99999999999999999"}[vrt.Choose("pre", 5)]
	d := vrt.String("d", vrt.Param("d", 2))
	for i := 0; i < len(d); i++ {
		vrt.Assume(vrt.And(d[i] >= '0', d[i] <= '9'))
	}
	s := pre + d
	switch vrt.Choose("form", 3) {
	case 0:
		checkHeartBeat(s + ",0")
	case 1:
		checkHeartBeat("0," + s)
	case 2:
		checkHeartBeat(s + "," + s)
	}
}
