package vh

import (
	"io"
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
)

// ---------------------------------------------------------------------------
// C30: the client of this repository with the server of this repository
// ---------------------------------------------------------------------------

// pconn is one end of an in-memory connection between the two.
type pconn struct {
	mu   sync.Mutex
	in   chan []byte
	rest []byte
	deadlines
	closed   chan struct{}
	isClosed bool
	peer     *pconn
	chunk    int
}

func newPair() (*pconn, *pconn) {
	a := &pconn{in: make(chan []byte, 64), closed: make(chan struct{}), deadlines: deadlines{changed: make(chan struct{}, 1)}}
	b := &pconn{in: make(chan []byte, 64), closed: make(chan struct{}), deadlines: deadlines{changed: make(chan struct{}, 1)}, peer: a}
	a.peer = b
	return a, b
}

func (c *pconn) Read(p []byte) (int, error) {
	c.reading++
	defer func() { c.reading-- }()
	for len(c.rest) == 0 {
		var tch <-chan time.Time
		var t *time.Timer
		if !c.deadline.IsZero() {
			d := time.Until(c.deadline)
			if d <= 0 {
				return 0, errTimeout
			}
			t = time.NewTimer(d)
			tch = t.C
		}
		err := c.wait(tch)
		if t != nil {
			t.Stop()
		}
		if err != nil {
			return 0, err
		}
	}
	n := len(c.rest)
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	n = copy(p, c.rest[:n])
	c.rest = c.rest[n:]
	return n, nil
}

// wait waits for input.
func (c *pconn) wait(tch <-chan time.Time) error {
	select {
	case <-c.closed:
		return errClosed
	default:
	}
	// what was written before the other end closed comes first
	select {
	case c.rest = <-c.in:
	default:
		select {
		case c.rest = <-c.in:
		case <-c.peer.closed:
			select {
			case c.rest = <-c.in:
			default:
				return io.EOF
			}
		case <-c.closed:
			return errClosed
		case <-tch:
			return errTimeout
		case <-c.changed:
		}
	}
	return nil
}

func (c *pconn) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, errClosed
	default:
	}
	if c.late() {
		return 0, errTimeout
	}
	select {
	case c.peer.in <- append([]byte(nil), p...):
		return len(p), nil
	case <-c.closed:
		return 0, errClosed
	case <-c.peer.closed:
		return 0, errWrite
	}
}

func (c *pconn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.isClosed {
		return errClosed
	}
	c.isClosed = true
	close(c.closed)
	return nil
}

func (c *pconn) down() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.isClosed
}

func (c *pconn) LocalAddr() net.Addr  { return addr("fake") }
func (c *pconn) RemoteAddr() net.Addr { return addr("fake") }

// emsg is a message as its sender knows it.
type emsg struct {
	dest, ct, k, v string
	body           []byte
}

// system is a server with a sending and a receiving program.
type system struct {
	l     *flistener
	ver   stomp.Version
	n     int
	ends  []*pconn
	queue []*emsg // in the queue
	out   *emsg   // delivered, waiting for its acknowledgement
	outM  *stomp.Message
	a, b  *stomp.Conn
	qs    *stomp.Subscription
	ts    *stomp.Subscription
	mode  stomp.AckMode
	topic []*emsg // that the topic subscription must get
}

func (y *system) join(opts ...connOpt) *stomp.Conn {
	c, s := newPair()
	if n := vrt.Param("chunk", 0); n > 0 {
		c.chunk, s.chunk = n, n
	}
	y.l.conns <- s
	conn, err := stomp.Connect(c, append([]connOpt{quietLog, stomp.ConnOpt.AcceptVersion(y.ver)}, opts...)...)
	vrt.Assert(err == nil && conn != nil, "a client cannot connect")
	vrt.Assert(conn.Version() == y.ver, "another version was negotiated")
	y.ends = append(y.ends, c, s)
	return conn
}

func (y *system) msg(dest string) *emsg {
	s := strconv.Itoa(y.n)
	y.n++
	m := &emsg{dest: dest, body: []byte{byte(y.n)}}
	if y.n <= vrt.Param("arb", 1) {
		// (a body may start or end with any byte)
		m.body = append([]byte{vrt.Byte("first" + s)}, append(m.body, vrt.Byte("last"+s))...)
		m.k, m.v = vrt.String("k"+s, 1), vrt.String("v"+s, vrt.Param("vlen", 1))
		if vrt.Choose("ct"+s, 2) == 1 {
			m.ct = plain("ctype"+s, 1)
		}
	}
	return m
}

func (m *emsg) opts(more ...frameOpt) []frameOpt {
	if m.k != "" {
		more = append(more, stomp.SendOpt.Header(m.k, m.v))
	}
	return more
}

// same: got is m.
func (y *system) same(got *stomp.Message, m *emsg, sub *stomp.Subscription) {
	vrt.Assert(got.Err == nil, "an error instead of a message")
	vrt.Assert(got.Subscription == sub && vrt.EqStr(got.Destination, m.dest), "a message for another subscription")
	vrt.Assert(vrt.EqBytes(got.Body, m.body), "messages are lost, changed, repeated or out of order")
	vrt.Assert(vrt.EqStr(got.ContentType, m.ct), "the content type is changed")
	if m.k != "" {
		v, ok := got.Header.Contains(m.k)
		vrt.Assert(ok && vrt.EqStr(v, m.v), "a header is lost or changed")
	}
	vrt.Assert(got.ShouldAck() == (sub.AckMode() != stomp.AckAuto), "ShouldAck is wrong")
}

// settle: everything the subscriptions can have is there, and nothing else.
func (y *system) settle() {
	vrt.Quiesce()
	for y.qs != nil && len(y.queue) > 0 && y.out == nil {
		m := y.queue[0]
		y.queue = y.queue[1:]
		select {
		case got, ok := <-y.qs.C:
			vrt.Assert(ok, "the subscription has ended")
			y.same(got, m, y.qs)
			if y.mode != stomp.AckAuto {
				y.out, y.outM = m, got
			}
		default:
			vrt.Assert(false, "a message of the queue does not arrive")
		}
	}
	if y.qs != nil {
		vrt.Assert(len(y.qs.C) == 0 && y.qs.Active(), "a message was delivered that is not due")
	}
	for y.ts != nil && len(y.topic) > 0 {
		select {
		case got, ok := <-y.ts.C:
			vrt.Assert(ok, "the subscription has ended")
			y.same(got, y.topic[0], y.ts)
			y.topic = y.topic[1:]
		default:
			vrt.Assert(false, "a message of the topic does not arrive")
		}
	}
	if y.ts != nil {
		vrt.Assert(len(y.ts.C) == 0 && y.ts.Active(), "a topic message was delivered that is not due")
	}
}

func (y *system) consumer(i string) {
	y.b = y.join()
	y.mode = []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[vrt.Choose("mode"+i, 3)]
	var err error
	y.ts, err = y.b.Subscribe("/topic/t", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	y.listen()
}

func (y *system) listen() {
	var err error
	y.qs, err = y.b.Subscribe("/queue/q", y.mode)
	vrt.Assert(err == nil, "Subscribe fails")
	y.settle()
}

func newSystem(srv *server.Server) *system {
	y := &system{l: newFlistener(), ver: []stomp.Version{stomp.V12, stomp.V11}[vrt.Choose("ver", vrt.Param("vers", 2))]}
	srv.Log = nullLog{}
	go srv.Serve(y.l)
	vrt.Quiesce()
	return y
}

// EndToEnd: any history of a sending and a receiving program.
func EndToEnd() {
	y := newSystem(&server.Server{})
	base := vrt.Goroutines()
	y.a = y.join()
	y.consumer("")
	for i := 0; i < vrt.Param("n", 3); i++ {
		s := strconv.Itoa(i)
		switch vrt.Choose("op"+s, 8) {
		case 0:
			m := y.msg("/queue/q")
			vrt.Assert(y.a.Send(m.dest, m.ct, m.body, m.opts()...) == nil, "Send fails")
			y.queue = append(y.queue, m)
		case 1:
			m := y.msg("/topic/t")
			vrt.Assert(y.a.Send(m.dest, m.ct, m.body, m.opts()...) == nil, "Send fails")
			y.topic = append(y.topic, m)
		case 2: // with a receipt: the server has it when Send returns
			m := y.msg([]string{"/queue/q", "/topic/t"}[vrt.Choose("to"+s, 2)])
			vrt.Assert(y.a.Send(m.dest, m.ct, m.body, m.opts(stomp.SendOpt.Receipt)...) == nil, "Send with a receipt fails")
			if m.dest == "/queue/q" {
				y.queue = append(y.queue, m)
			} else {
				y.topic = append(y.topic, m)
			}
			y.a.MustDisconnect()
			y.a = y.join()
			vrt.Reach("receipt")
		case 3: // a transaction
			tx, err := y.a.BeginWithError()
			vrt.Assert(err == nil, "Begin fails")
			var ms []*emsg
			rcpt := 2 * vrt.Choose("txreceipt"+s, 2) // the last message asks for a receipt
			for j := 0; j < 3; j++ {
				m := y.msg([]string{"/queue/q", "/topic/t", "/queue/q"}[j])
				o := m.opts()
				if rcpt > 0 && j == rcpt {
					o = m.opts(stomp.SendOpt.Receipt)
				}
				vrt.Assert(tx.Send(m.dest, m.ct, m.body, o...) == nil, "Transaction.Send fails")
				ms = append(ms, m)
			}
			// the receiver sees nothing yet
			y.settle()
			switch vrt.Choose("end"+s, 4) {
			case 0:
				vrt.Assert(tx.Commit() == nil, "Commit fails")
			case 1:
				vrt.Assert(tx.CommitWithReceipt() == nil, "CommitWithReceipt fails")
				y.a.MustDisconnect()
				y.a = y.join()
			case 2:
				vrt.Assert(tx.Abort() == nil, "Abort fails")
				ms = nil
				vrt.Reach("abort")
			case 3:
				vrt.Assert(y.a.Disconnect() == nil, "Disconnect fails")
				y.a = y.join()
				ms = nil
			}
			for _, m := range ms {
				if m.dest == "/queue/q" {
					y.queue = append(y.queue, m)
				} else {
					y.topic = append(y.topic, m)
				}
				vrt.Reach("commit")
			}
		case 4, 5: // the receiver settles a message
			if y.out == nil {
				continue
			}
			m, got := y.out, y.outM
			y.out, y.outM = nil, nil
			how := vrt.Choose("how"+s, 4)
			var tx *stomp.Transaction
			if how >= 2 {
				tx = y.b.Begin()
			}
			switch how {
			case 0:
				vrt.Assert(y.b.Ack(got) == nil, "Ack fails")
				vrt.Reach("ack")
			case 1:
				vrt.Assert(y.b.Nack(got) == nil, "Nack fails")
				y.queue = append([]*emsg{m}, y.queue...)
				vrt.Reach("nack")
			default:
				vrt.Assert(tx.Ack(got) == nil, "Transaction.Ack fails")
				y.out, y.outM = m, got
				y.settle()
				if how == 2 {
					vrt.Assert(tx.Commit() == nil, "Commit fails")
					y.out, y.outM = nil, nil
				} else {
					vrt.Assert(tx.Abort() == nil, "Abort fails")
				}
			}
		case 6: // the receiver ends and another one starts
			if y.out != nil {
				y.queue = append([]*emsg{y.out}, y.queue...)
				y.out, y.outM = nil, nil
				vrt.Reach("again")
			}
			if vrt.Choose("rude"+s, 2) == 0 {
				vrt.Assert(y.b.Disconnect() == nil, "Disconnect fails")
			} else {
				y.b.MustDisconnect()
			}
			qs, ts := y.qs, y.ts
			y.qs, y.ts, y.topic = nil, nil, nil
			vrt.Quiesce()
			for _, sub := range []*stomp.Subscription{qs, ts} {
				last, ok := <-sub.C
				vrt.Assert(!ok || last.Err != nil, "a message arrives after the end of the connection")
				vrt.Assert(!sub.Active(), "a subscription outlives its connection")
			}
			// meanwhile the sender goes on
			m := y.msg("/queue/q")
			vrt.Assert(y.a.Send(m.dest, m.ct, m.body, m.opts()...) == nil, "Send fails")
			y.queue = append(y.queue, m)
			y.consumer(s)
		case 7: // the receiver ends its subscription and starts another one
			if y.out != nil {
				continue
			}
			qs := y.qs
			vrt.Assert(qs.Unsubscribe() == nil, "Unsubscribe fails")
			_, ok := <-qs.C
			vrt.Assert(!ok && !qs.Active(), "the subscription goes on")
			y.qs = nil
			m := y.msg("/queue/q")
			vrt.Assert(y.a.Send(m.dest, m.ct, m.body, m.opts()...) == nil, "Send fails")
			y.queue = append(y.queue, m)
			y.settle()
			y.listen()
			vrt.Reach("unsubscribe")
		}
		y.settle()
	}
	vrt.Assert(y.a.Disconnect() == nil && y.b.Disconnect() == nil, "Disconnect fails")
	vrt.Quiesce()
	for _, c := range y.ends {
		vrt.Assert(c.down(), "a connection is left open")
	}
	vrt.Assert(vrt.Goroutines() == base, "go-routines of connections that have ended are left")
	vrt.Reach("end")
}

// EndToEndBeats: both sides with any preferences for heart-beats: a
// connection that is idle stays, and one whose other end is silent does not.
func EndToEndBeats() {
	min := vrt.IntRange("min", vrt.Param("min", 300), 500)
	y := newSystem(&server.Server{HeartBeat: time.Duration(min) * ms})
	pick := func(name string) time.Duration {
		if vrt.Choose(name+"?", 2) == 0 {
			return 0
		}
		return time.Duration(vrt.IntRange(name, 1, vrt.Param("max", 999))) * ms
	}
	send, recv := pick("send"), pick("recv")
	margin := []time.Duration{ms, 150 * ms}[vrt.Choose("margin", 2)]
	y.a = y.join()
	b := y.join(stomp.ConnOpt.HeartBeat(send, recv), stomp.ConnOpt.HeartBeatError(margin))
	// as documented the margin must be less than the interval
	agreed := send
	if agreed < time.Duration(min)*ms {
		agreed = time.Duration(min) * ms
	}
	vrt.Assume(agreed > margin+margin/2)
	sub, err := b.Subscribe("/topic/t", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	k := len(y.ends) - 2
	time.Sleep(time.Duration(vrt.Param("idle", 1200)) * ms)
	vrt.Quiesce()
	vrt.Assert(!y.ends[k].down() && !y.ends[k+1].down(), "an idle connection is closed although both sides live")
	vrt.Assert(len(sub.C) == 0 && sub.Active(), "a subscription ends although both sides live")
	vrt.Assert(y.a.Send("/topic/t", "", []byte("x")) == nil, "Send fails")
	vrt.Quiesce()
	vrt.Assert(len(sub.C) == 1, "a message does not arrive after some time")
	if send > 0 {
		vrt.Reach("send")
	}
	if recv > 0 {
		vrt.Reach("recv")
	}
	vrt.Reach("end")
}
