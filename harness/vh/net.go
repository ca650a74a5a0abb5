package vh

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// in-memory connections
// ---------------------------------------------------------------------------

type nullLog struct{}

func (nullLog) Debugf(format string, value ...interface{})   {}
func (nullLog) Infof(format string, value ...interface{})    {}
func (nullLog) Warningf(format string, value ...interface{}) {}
func (nullLog) Errorf(format string, value ...interface{})   {}
func (nullLog) Debug(message string)                         {}
func (nullLog) Info(message string)                          {}
func (nullLog) Warning(message string)                       {}
func (nullLog) Error(message string)                         {}

type addr string

func (addr) Network() string  { return "fake" }
func (a addr) String() string { return string(a) }

// the errors of a network connection
var (
	errTimeout error = &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	errClosed  error = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	errWrite         = errors.New("connection reset by peer")
)

// deadlines are those of a connection; a Read that is under way takes note of
// a change.
type deadlines struct {
	deadline  time.Time
	wdeadline time.Time
	reading   int
	changed   chan struct{}
}

func (c *deadlines) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *deadlines) SetReadDeadline(t time.Time) error {
	c.deadline = t
	if c.reading > 0 {
		select {
		case c.changed <- struct{}{}:
		default:
		}
	}
	return nil
}

func (c *deadlines) SetWriteDeadline(t time.Time) error { c.wdeadline = t; return nil }

// late tells whether nothing can be written any more.
func (c *deadlines) late() bool { return !c.wdeadline.IsZero() && time.Until(c.wdeadline) <= 0 }

// fconn is the code's end of a connection; the harness holds the other end:
// feed, hangup and the bytes in out.
type fconn struct {
	mu   sync.Mutex
	in   chan []byte
	rest []byte
	deadlines
	closed   chan struct{}
	isClosed bool
	nclose   int
	out      []byte
	outAt    []time.Time   // when each Write happened
	outLen   []int         // length of out after it
	wleft    int           // bytes that can still be written, -1: no limit
	stall    chan struct{} // non-nil: writes block until it is closed (or the connection is)
	readErr  error         // what Read reports after a hang-up (default io.EOF)
	chunk    int           // deliver at most so many bytes at a time, 0: no limit

	// the harness's view
	seen int // position in out up to which frames have been taken
	name string
	addr string
}

func newFconn(name string) *fconn {
	return &fconn{addr: "fake", deadlines: deadlines{changed: make(chan struct{}, 1)}, in: make(chan []byte, 64), closed: make(chan struct{}), wleft: -1, name: name, readErr: io.EOF}
}

func (c *fconn) Read(p []byte) (int, error) {
	c.reading++
	defer func() { c.reading-- }()
	for len(c.rest) == 0 {
		var tch <-chan time.Time
		var t *time.Timer
		if !c.deadline.IsZero() {
			d := time.Until(c.deadline)
			if d <= 0 {
				return 0, errTimeout
			}
			t = time.NewTimer(d)
			tch = t.C
		}
		err := c.wait(tch)
		if t != nil {
			t.Stop()
		}
		if err != nil {
			return 0, err
		}
	}
	n := len(c.rest)
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	n = copy(p, c.rest[:n])
	c.rest = c.rest[n:]
	return n, nil
}

// wait waits for input.
func (c *fconn) wait(tch <-chan time.Time) error {
	// a connection that is closed locally does not deliver any more
	select {
	case <-c.closed:
		return errClosed
	default:
	}
	select {
	case b, ok := <-c.in:
		if !ok {
			return c.readErr
		}
		c.rest = b
	case <-c.closed:
		return errClosed
	case <-tch:
		return errTimeout
	case <-c.changed:
	}
	return nil
}

func (c *fconn) Write(p []byte) (int, error) {
	c.mu.Lock()
	st := c.stall
	c.mu.Unlock()
	if st != nil {
		var tch <-chan time.Time
		if !c.wdeadline.IsZero() {
			t := time.NewTimer(time.Until(c.wdeadline))
			defer t.Stop()
			tch = t.C
		}
		select {
		case <-st:
		case <-c.closed:
		case <-tch:
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.isClosed {
		return 0, errClosed
	}
	if c.late() {
		return 0, errTimeout
	}
	n := len(p)
	if c.wleft >= 0 && n > c.wleft {
		n = c.wleft
	}
	c.out = append(c.out, p[:n]...)
	if c.wleft >= 0 {
		c.wleft -= n
	}
	c.outAt = append(c.outAt, time.Now())
	c.outLen = append(c.outLen, len(c.out))
	if n < len(p) {
		return n, errWrite
	}
	return n, nil
}

func (c *fconn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nclose++
	if c.isClosed {
		return errClosed
	}
	c.isClosed = true
	close(c.closed)
	return nil
}

func (c *fconn) LocalAddr() net.Addr  { return addr(c.addr) }
func (c *fconn) RemoteAddr() net.Addr { return addr(c.addr) }

// feed gives the code bytes to read.
func (c *fconn) feed(b []byte) { c.in <- b }

// hangup ends the input.
func (c *fconn) hangup() { close(c.in) }

// wframe is a frame as the harness sees it on the wire.
type wframe struct {
	beat bool
	cmd  string
	hs   []kv
	body []byte
}

func (f wframe) get(k string) string {
	v, _ := refGet(f.hs, k)
	return v
}

func (f wframe) has(k string) bool {
	_, ok := refGet(f.hs, k)
	return ok
}

// take returns the frames the code has written since the last call. Anything
// that is not a sequence of complete well-formed frames is a violation.
func (c *fconn) take() []wframe {
	c.mu.Lock()
	out := c.out
	c.mu.Unlock()
	var fs []wframe
	for c.seen < len(out) {
		r := refDecode(out, c.seen)
		switch r.kind {
		case rFrame:
			fs = append(fs, wframe{cmd: r.cmd, hs: r.hs, body: append([]byte(nil), r.body...)})
		case rBeat:
			fs = append(fs, wframe{beat: true})
		default:
			if c.wleft == 0 {
				// the connection broke in the middle of a frame
				return fs
			}
			vrt.Observe("out", out)
			vrt.Assert(false, "malformed or incomplete frame on the wire")
		}
		c.seen = r.next
	}
	return fs
}

// frames is take without the heart-beats.
func (c *fconn) frames() []wframe {
	var r []wframe
	for _, f := range c.take() {
		if !f.beat {
			r = append(r, f)
		}
	}
	return r
}

func (c *fconn) down() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.isClosed
}

// ---------------------------------------------------------------------------
// listener
// ---------------------------------------------------------------------------

type flistener struct {
	conns chan net.Conn
}

func newFlistener() *flistener { return &flistener{conns: make(chan net.Conn, 8)} }

func (l *flistener) Accept() (net.Conn, error) {
	c, ok := <-l.conns
	if !ok {
		return nil, errClosed
	}
	return c, nil
}

func (l *flistener) Close() error   { return nil }
func (l *flistener) Addr() net.Addr { return addr("fake") }

// enc builds the bytes of a frame from alternating header names and values.
func enc(cmd string, body []byte, hs ...string) []byte {
	var l []kv
	for i := 0; i+1 < len(hs); i += 2 {
		l = append(l, kv{hs[i], hs[i+1]})
	}
	return refEncode(cmd, l, body)
}
