package vh

import (
	"context"
	"io"
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// a client connection; the harness is the server
// ---------------------------------------------------------------------------

type connOpt = func(*stomp.Conn) error
type frameOpt = func(*frame.Frame) error

type cli struct {
	c    *fconn
	conn *stomp.Conn
	ver  string
}

var quietLog = func(c *stomp.Conn) error { return stomp.ConnOpt.Logger(nullLog{})(c) }

// newCli connects with a server that answers CONNECTED with ver and the
// headers more.
func newCli(ver string, more []string, opts ...connOpt) *cli {
	x := &cli{c: newFconn("server"), ver: ver}
	x.c.feed(enc("CONNECTED", nil, append([]string{"version", ver}, more...)...))
	conn, err := stomp.Connect(x.c, append([]connOpt{quietLog}, opts...)...)
	vrt.Assert(err == nil && conn != nil, "Connect fails although the server answered CONNECTED")
	x.conn = conn
	vrt.Quiesce()
	fs := x.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECT", "Connect does not send exactly one CONNECT frame")
	return x
}

// plain is an arbitrary text of n bytes without those that need escaping.
func plain(name string, n int) string {
	s := vrt.String(name, n)
	for i := 0; i < n; i++ {
		vrt.Assume(vrt.And(vrt.And(s[i] != '\n', s[i] != '\r'), vrt.And(vrt.And(s[i] != ':', s[i] != '\\'), s[i] != 0)))
	}
	return s
}

// sameByKey: the headers of got are those of want, as far as a receiver can
// tell: for every name the same values in the same order. Names of one byte
// (the arbitrary ones) are compared in order.
func sameByKey(got, want []kv) bool {
	if len(got) != len(want) {
		return false
	}
	short := func(l []kv) (r []kv) {
		for _, h := range l {
			if len(h.k) == 1 {
				r = append(r, h)
			}
		}
		return r
	}
	values := func(l []kv, k string) (r []kv) {
		for _, h := range l {
			if len(h.k) != 1 && h.k == k {
				r = append(r, h)
			}
		}
		return r
	}
	ok := sameHeaders(short(got), short(want))
	for _, h := range want {
		if len(h.k) != 1 {
			a, b := values(got, h.k), values(want, h.k)
			if len(a) != len(b) {
				return false
			}
			ok = vrt.And(ok, sameHeaders(a, b))
		}
	}
	return ok
}

// rwc hides that a connection is a net.Conn.
type rwc struct{ c *fconn }

func (r rwc) Read(p []byte) (int, error)  { return r.c.Read(p) }
func (r rwc) Write(p []byte) (int, error) { return r.c.Write(p) }
func (r rwc) Close() error                { return r.c.Close() }

// ---------------------------------------------------------------------------
// C07: the handshake of the client
// ---------------------------------------------------------------------------

// ConnOptions: the CONNECT frame for arbitrary options.
func ConnOptions() {
	c := newFconn("server")
	c.feed(enc("CONNECTED", nil, "version", "1.2"))
	base := vrt.Goroutines()
	opts := []connOpt{quietLog}
	cmd := "CONNECT"
	var want []kv
	if vrt.Choose("stomp", 2) == 1 {
		opts = append(opts, stomp.ConnOpt.UseStomp)
		cmd = "STOMP"
	}
	if vrt.Choose("nil", 2) == 1 {
		opts = append(opts, nil)
	}
	host := "default"
	var conn io.ReadWriteCloser = c
	switch vrt.Choose("host", 4) {
	case 1:
		host = plain("host", 2)
		opts = append(opts, stomp.ConnOpt.Host(host))
	case 2:
		conn = rwc{c}
	case 3:
		c.addr = "broker:61613"
		host = "broker"
	}
	want = append(want, kv{"host", host})
	send, recv := "60000", "60000"
	if vrt.Choose("heartbeat", 2) == 1 {
		s, r := vrt.IntRange("s", 0, vrt.Param("hb", 12)), vrt.IntRange("r", 0, vrt.Param("hb", 12))
		us := time.Duration(vrt.IntRange("us", 0, 1)) * 999 * time.Microsecond
		opts = append(opts, stomp.ConnOpt.HeartBeat(time.Duration(s)*ms+us, time.Duration(r)*ms+us))
		send, recv = strconv.Itoa(s), strconv.Itoa(r)
	}
	want = append(want, kv{"heart-beat", send + "," + recv})
	if vrt.Choose("login", 2) == 1 {
		l, p := plain("login", vrt.Choose("llen", 2)), plain("pass", vrt.Choose("plen", 2))
		opts = append(opts, stomp.ConnOpt.Login(l, p))
		if len(l)+len(p) > 0 {
			want = append(want, kv{"login", l}, kv{"passcode", p})
		}
	}
	vs := ""
	bad := false
	switch vrt.Choose("versions", 4) {
	case 0:
		vs = "1.0,1.1,1.2"
	case 1:
		for _, i := range []int{vrt.Choose("v0", 3), vrt.Choose("v1", 3)} {
			v := []stomp.Version{stomp.V10, stomp.V11, stomp.V12}[i]
			opts = append(opts, stomp.ConnOpt.AcceptVersion(v))
			if vs != "" {
				vs += ","
			}
			vs += string(v)
		}
	case 2:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V11, stomp.V12))
		vs = "1.1,1.2"
	case 3:
		v := vrt.String("version", 3)
		vrt.Assume(vrt.And(vrt.And(v != "1.0", v != "1.1"), v != "1.2"))
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V12, stomp.Version(v)))
		bad = true
	}
	want = append(want, kv{"accept-version", vs})
	for i := vrt.Choose("headers", vrt.Param("headers", 2)+1); i > 0; i-- {
		k := plain("hk", 1)
		if vrt.Choose("hstd", 2) == 1 {
			// a standard header is not replaced by a custom one
			k = "host"
		}
		v := plain("hv", 1)
		opts = append(opts, stomp.ConnOpt.Header(k, v))
		want = append(want, kv{k, v})
	}
	x, err := stomp.Connect(conn, opts...)
	vrt.Quiesce()
	fs := c.frames()
	if bad {
		vrt.Assert(x == nil && err != nil, "Connect accepts an unsupported version option")
		vrt.Assert(len(fs) == 0, "Connect sends a frame although an option is invalid")
		vrt.Assert(vrt.Goroutines() == base, "a failed Connect leaves go-routines behind")
		vrt.Reach("invalid")
		return
	}
	vrt.Assert(err == nil && x != nil, "Connect fails although the server answered CONNECTED")
	vrt.Assert(len(fs) == 1 && fs[0].cmd == cmd, "Connect does not send exactly one frame with the right command")
	vrt.Assert(len(fs[0].body) == 0, "the CONNECT frame has a body")
	vrt.Assert(sameByKey(fs[0].hs, want), "the headers of the CONNECT frame are not those the options ask for")
	vrt.Reach("connected")
}

// ConnBuffers: the options for buffers and channels.
func ConnBuffers() {
	c := newFconn("server")
	size := vrt.Param("size", 40)
	body := vrt.Bytes("body", vrt.IntRange("n", 1, 2))
	c.feed(enc("CONNECTED", nil, "version", "1.2"))
	opts := []connOpt{quietLog, stomp.ConnOpt.WriteBufferSize(4096), stomp.ConnOpt.ReadBufferSize(16)}
	if vrt.Choose("small", 2) == 1 {
		opts = []connOpt{quietLog, stomp.ConnOpt.WriteBufferSize(16), stomp.ConnOpt.ReadBufferSize(4096)}
		size = 16
	}
	opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(vrt.Choose("rcap", 3)), stomp.ConnOpt.WriteChannelCapacity(vrt.Choose("wcap", 3)))
	conn, err := stomp.Connect(c, opts...)
	vrt.Assert(err == nil, "Connect fails although the server answered CONNECTED")
	n := len(c.outLen)
	last := 0
	if size == 16 {
		for _, l := range c.outLen {
			vrt.Assert(l-last <= 16, "more bytes at once than the write buffer holds")
			last = l
		}
	} else {
		vrt.Assert(n == 1, "a frame that fits into the write buffer is not written at once")
	}
	err = conn.Send("/queue/a", "text/plain", body)
	vrt.Assert(err == nil, "Send fails")
	vrt.Quiesce()
	fs := c.frames()
	vrt.Assert(len(fs) == 2 && fs[1].cmd == "SEND" && vrt.EqBytes(fs[1].body, body), "Send sends something else")
	vrt.Assert(size == 16 || len(c.outLen) == n+1, "a frame that fits into the write buffer is not written at once")
	vrt.Reach("end")
}

// ConnAnswer: arbitrary answers to CONNECT.
func ConnAnswer() {
	c := newFconn("server")
	base := vrt.Goroutines()
	ok := true
	why := ""
	wantVer, wantErr := "1.0", ""
	var hs []kv
	kind := vrt.Choose("kind", 7)
	if k := vrt.Param("kind", -1); k >= 0 {
		vrt.Assume(kind == k)
	}
	var cut time.Duration
	var ctx context.Context = context.Background()
	switch kind {
	case 0: // CONNECTED
		switch vrt.Choose("version", 3) {
		case 1:
			wantVer = plain("v", vrt.Param("ver", 3))
			hs = append(hs, kv{"version", wantVer})
			ok = vrt.ConcreteBool(vrt.Or(vrt.Or(wantVer == "1.0", wantVer == "1.1"), wantVer == "1.2"))
			why = "an unsupported version"
		case 2: // the first one counts
			wantVer = "1.1"
			hs = append(hs, kv{"version", "1.1"}, kv{"version", "1.3"})
		}
		if vrt.Choose("session", 2) == 1 {
			hs = append(hs, kv{"session", plain("session", 1)})
		}
		if vrt.Choose("server", 2) == 1 {
			hs = append(hs, kv{"server", plain("server", 1)})
		}
		if vrt.Choose("custom", 2) == 1 {
			hs = append(hs, kv{plain("ck", 1), plain("cv", 1)})
		}
		c.feed(refEncode("CONNECTED", hs, nil))
		if vrt.Choose("ctx", 2) == 1 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(time.Second))
			defer cancel()
		}
	case 1: // ERROR
		ok, why = false, "ERROR"
		if vrt.Choose("message", 2) == 1 {
			wantErr = plain("message", 1+vrt.Choose("mlen", 2))
			hs = append(hs, kv{"message", wantErr})
		}
		c.feed(refEncode("ERROR", hs, vrt.Bytes("body", 0)))
	case 2: // some other frame
		ok, why = false, "another frame"
		cmd := allCommands[vrt.Choose("cmd", len(allCommands))]
		vrt.Assume(cmd != "CONNECTED" && cmd != "ERROR")
		c.feed(enc(cmd, nil, "version", "1.2"))
	case 3: // heart-beat header
		s := plain("hb", vrt.Param("hb", 4))
		comma := -1
		for i := len(s) - 1; i >= 0; i-- {
			if s[i] == ',' {
				comma = i
			}
		}
		ok = false
		if comma >= 0 {
			_, ok1 := refNumber(s[:comma], 1<<40)
			_, ok2 := refNumber(s[comma+1:], 1<<40)
			ok = ok1 && ok2
		}
		why = "a malformed heart-beat header"
		hs = []kv{{"heart-beat", s}}
		c.feed(refEncode("CONNECTED", hs, nil))
	case 4: // arbitrary bytes, then nothing
		ok, why = false, "garbage"
		c.feed(vrt.Bytes("bytes", vrt.Param("bytes", 5)))
		c.hangup()
	case 5: // an incomplete CONNECTED
		ok, why = false, "an incomplete frame"
		b := enc("CONNECTED", nil, "version", "1.2", "heart-beat", "0,0")
		n := vrt.IntRange("cut", 0, len(b)-1)
		c.feed(b[:vrt.Concrete(n)])
		if vrt.Choose("how", 2) == 1 {
			c.readErr = errWrite
		}
		c.hangup()
	case 6: // nothing
		ok, why = false, "nothing"
		if vrt.Choose("write", 2) == 1 {
			// not even the CONNECT frame can be written
			c.wleft = vrt.IntRange("wleft", 0, 20)
		} else {
			d := time.Duration(vrt.IntRange("deadline", 1, 100000)) * ms
			var cancel context.CancelFunc
			ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(d))
			defer cancel()
			cut = d
		}
	}
	calls := 0
	t0 := time.Now()
	x, err := stomp.ConnectWithContext(ctx, c, quietLog, stomp.ConnOpt.ResponseHeaders(func(h *frame.Header) {
		calls++
		var got []kv
		for i := 0; i < h.Len(); i++ {
			k, v := h.GetAt(i)
			got = append(got, kv{k, v})
		}
		vrt.Assert(sameHeaders(got, hs), "the response headers callback gets other headers")
	}))
	vrt.Quiesce()
	if !ok {
		vrt.Assert(x == nil && err != nil, "Connect succeeds after "+why)
		if kind == 1 {
			e, isErr := err.(stomp.Error)
			vrt.Assert(isErr && e.Frame != nil && e.Frame.Command == "ERROR", "Connect does not return the ERROR frame of the server")
			if wantErr != "" {
				vrt.Assert(vrt.EqStr(err.Error(), wantErr), "Connect does not return the message of the ERROR frame")
			} else {
				vrt.Assert(err.Error() != "", "an error without text")
			}
		}
		if cut > 0 {
			vrt.Assert(time.Since(t0) == cut, "Connect does not return at the deadline of its context")
		}
		vrt.Assert(vrt.Goroutines() == base, "a failed Connect leaves go-routines behind")
		vrt.Assert(calls == 0, "the response headers callback is called without a connection")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(err == nil && x != nil, "Connect fails although the server answered CONNECTED")
	vrt.Assert(vrt.EqStr(string(x.Version()), wantVer), "Conn.Version is not what the server chose")
	vrt.Assert(vrt.EqStr(x.Session(), getOr(hs, "session")), "Conn.Session is wrong")
	vrt.Assert(vrt.EqStr(x.Server(), getOr(hs, "server")), "Conn.Server is wrong")
	vrt.Assert(calls == 1, "the response headers callback is not called once")
	// the deadline of the context is for the handshake only
	time.Sleep(2 * time.Second)
	vrt.Quiesce()
	if kind == 0 {
		vrt.Assert(!c.down(), "a connection is closed by the deadline of the context of its handshake")
	}
	vrt.Reach("connected")
}

func getOr(hs []kv, k string) string {
	v, _ := refGet(hs, k)
	return v
}
