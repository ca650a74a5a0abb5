package vh

import (
	"errors"
	"net"
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
)

// ---------------------------------------------------------------------------
// C28: the end of a connection
// ---------------------------------------------------------------------------

// endStates: what a connection can be doing when it ends.
const endStates = 9

// ServerEnd: a connection in any of several states ends for any of several
// causes, while other clients send to its destinations.
func ServerEnd() {
	vrt.Delays(0)
	w := newWorld(&server.Server{HeartBeat: time.Second})
	obs := w.witness()
	base := vrt.Goroutines()
	p := w.dial("x")
	state := vrt.Choose("state", vrt.Param("states", endStates))
	ver := []string{"1.1", "1.2"}[vrt.Choose("ver", vrt.Param("vers", 2))]
	var waits []byte // bodies of messages that must still be delivered
	msg := func(tag byte) {
		obs.c.feed(enc("SEND", []byte{tag}, "destination", "/queue/q"))
		vrt.Quiesce()
		waits = append(waits, tag)
	}
	if state > 0 {
		p.c.feed(enc("CONNECT", nil, "accept-version", ver, "heart-beat", "1000,0"))
		vrt.Quiesce()
	}
	if state > 1 {
		p.c.feed(enc("SUBSCRIBE", nil, "id", "t", "destination", "/topic/t"))
		p.c.feed(enc("SUBSCRIBE", nil, "id", "q", "destination", "/queue/q", "ack", []string{"client", "client-individual"}[vrt.Choose("ack", vrt.Param("acks", 2))]))
		vrt.Quiesce()
	}
	if state > 2 {
		// one message waits for its acknowledgement, one in the queue
		msg('a')
		msg('b')
	}
	acked := func(hs ...string) {
		if ver == "1.2" {
			p.c.feed(enc("ACK", nil, append(hs, "id", "1")...))
		} else {
			p.c.feed(enc("ACK", nil, append(hs, "message-id", "1", "subscription", "q")...))
		}
		vrt.Quiesce()
	}
	switch state {
	case 4: // an open transaction
		p.c.feed(enc("BEGIN", nil, "transaction", "x"))
		p.c.feed(enc("SEND", []byte("-"), "destination", "/queue/q", "transaction", "x"))
		p.c.feed(enc("SEND", []byte("-"), "destination", "/topic/w", "transaction", "x"))
		acked("transaction", "x")
	case 5: // it has acknowledged the first message and got the second one
		acked()
		waits = waits[1:]
	case 6: // it has unsubscribed with a message unacknowledged
		p.c.feed(enc("UNSUBSCRIBE", nil, "id", "q"))
		vrt.Quiesce()
	case 7: // it has seen more traffic than any buffer holds
		for i := 0; i < 40; i++ {
			obs.c.feed(enc("SEND", nil, "destination", "/topic/t"))
			vrt.Quiesce()
		}
	case 8: // the same message was returned
		if ver == "1.2" {
			p.c.feed(enc("NACK", nil, "id", "1"))
		} else {
			p.c.feed(enc("NACK", nil, "message-id", "1", "subscription", "q"))
		}
		vrt.Quiesce()
	}
	p.c.take()
	obs.c.frames()
	vrt.Assert(!p.c.down(), "a healthy connection is closed")
	vrt.Delays(-1)
	burst := vrt.Choose("burst", vrt.Param("bursts", 2)) == 1
	if burst {
		obs.c.feed(enc("SEND", []byte("z"), "destination", "/queue/q"))
		obs.c.feed(enc("SEND", nil, "destination", "/topic/t"))
		waits = append(waits, 'z')
	}
	cause := vrt.Choose("cause", vrt.Param("causes", 9))
	switch cause {
	case 0:
		p.c.hangup()
	case 1:
		p.c.readErr = errors.New("connection reset by peer")
		p.c.hangup()
	case 2: // DISCONNECT with a receipt, answered before the connection ends
		if state == 0 {
			return
		}
		p.c.feed(enc("DISCONNECT", nil, "receipt", "r"))
	case 3: // DISCONNECT, and the client goes away at once
		p.c.feed(enc("DISCONNECT", nil))
		p.c.hangup()
	case 4: // a protocol error with more frames behind it
		p.c.feed(append(enc("ABORT", nil, "transaction", "unknown"), enc("SEND", []byte("-"), "destination", "/queue/q")...))
	case 5: // in the middle of a frame
		p.c.feed([]byte("SEND\ndestination:/queue/q\n\n-"))
		p.c.hangup()
	case 6: // nothing can be written any more
		p.c.mu.Lock()
		p.c.wleft = vrt.Choose("left", 2)
		p.c.mu.Unlock()
		if state == 0 {
			p.c.feed(enc("CONNECT", nil, "accept-version", "1.2"))
		} else {
			p.c.feed(enc("SUBSCRIBE", nil, "id", "n", "destination", "/topic/n", "receipt", "r"))
		}
	case 7: // silence
		if state == 0 {
			return
		}
		vrt.Quiesce()
		time.Sleep(2100 * time.Millisecond)
	case 8: // something that is no frame
		bad := []string{"NOFRAME\n\n\x00", "SEND\nno colon\n\n\x00", "SEND\na\\x:b\n\n\x00", "SEND\ncontent-length:x\n\n\x00", "SEND\ncontent-length:1\n\nab\x00"}[vrt.Choose("bad", vrt.Param("bads", 5))]
		p.c.feed(append([]byte(bad), enc("SEND", []byte("-"), "destination", "/queue/q")...))
	}
	vrt.Quiesce()
	vrt.Delays(0)
	if cause == 2 {
		rc := 0
		for _, f := range p.c.frames() {
			if f.cmd == "RECEIPT" {
				rc++
			}
		}
		vrt.Assert(rc == 1, "DISCONNECT is not answered")
		if !p.c.down() {
			// the client closes
			p.c.hangup()
			vrt.Quiesce()
		}
	}
	vrt.Assert(p.c.down(), "the connection is not closed")
	vrt.Assert(vrt.Goroutines() == base, "go-routines of a connection that has ended are left")
	if cause != 6 {
		p.c.take()
	}
	out := len(p.c.out)
	// its messages go to the next one, those of its transaction do not
	q := w.connect("next", "1.2")
	q.c.feed(enc("SUBSCRIBE", nil, "id", "n", "destination", "/queue/q"))
	vrt.Quiesce()
	fs := q.c.frames()
	for _, f := range fs {
		vrt.Observe("got", f.body)
	}
	vrt.Assert(len(fs) == len(waits), "messages of a connection that has ended are lost, sent twice or invented")
	for i, f := range fs {
		vrt.Assert(f.cmd == "MESSAGE" && len(f.body) == 1 && f.body[0] == waits[i], "messages of a connection that has ended are given to the next one in another order")
	}
	obs.c.feed(enc("SEND", nil, "destination", "/topic/t"))
	obs.c.feed(enc("SEND", nil, "destination", "/topic/n"))
	vrt.Quiesce()
	vrt.Assert(len(obs.c.frames()) == 0, "a message of a transaction that was not committed, or an error, reaches another client")
	vrt.Assert(len(p.c.out) == out, "something is written to a connection that has ended")
	q.c.hangup()
	vrt.Quiesce()
	vrt.Assert(vrt.Goroutines() == base, "go-routines of a connection that has ended are left")
	w.served(obs)
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C29: the loop that accepts connections
// ---------------------------------------------------------------------------

type acceptErr struct{ temp bool }

func (e acceptErr) Error() string   { return "accept: too many open files" }
func (e acceptErr) Timeout() bool   { return false }
func (e acceptErr) Temporary() bool { return e.temp }

// elistener answers Accept with what the harness says, and remembers when it
// was asked.
type elistener struct {
	ch    chan interface{}
	calls []time.Time
}

func (l *elistener) Accept() (net.Conn, error) {
	l.calls = append(l.calls, time.Now())
	switch x := (<-l.ch).(type) {
	case net.Conn:
		return x, nil
	case error:
		return nil, x
	}
	return nil, errClosed
}

func (l *elistener) Close() error   { return nil }
func (l *elistener) Addr() net.Addr { return addr("fake") }

// AcceptLoop: any sequence of connections and temporary errors.
func AcceptLoop() {
	l := &elistener{ch: make(chan interface{}, 1)}
	returned := false
	go func() {
		(&server.Server{Log: nullLog{}}).Serve(l)
		returned = true
	}()
	vrt.Quiesce()
	vrt.Assert(len(l.calls) == 1, "the server does not accept connections")
	var peers []*fconn
	alive := func() {
		// all of them are served: each sends to a topic they all subscribe to
		for i, c := range peers {
			c.feed(enc("SEND", []byte{byte(i + 1)}, "destination", "/topic/t"))
			vrt.Quiesce()
			for _, d := range peers {
				fs := d.frames()
				vrt.Assert(len(fs) == 1 && fs[0].cmd == "MESSAGE" && len(fs[0].body) == 1 && fs[0].body[0] == byte(i+1), "a connection that was accepted is not served")
			}
		}
	}
	failed := 0 // temporary errors in a row
	run := vrt.Param("run", 1)
	for i := 0; i < vrt.Param("n", 4); i++ {
		s := strconv.Itoa(i)
		switch vrt.Choose("event"+s, 2+run) {
		case 0:
			c := newFconn("c" + s)
			// pipelined: everything is there before Accept returns
			c.feed(enc("CONNECT", nil, "accept-version", "1.2"))
			c.feed(enc("SUBSCRIBE", nil, "id", "1", "destination", "/topic/t"))
			k := len(l.calls)
			l.ch <- c
			vrt.Quiesce()
			vrt.Assert(len(l.calls) == k+1, "the server does not accept another connection")
			fs := c.frames()
			vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "a connection that was accepted is not served")
			peers = append(peers, c)
			failed = 0
			vrt.Reach("accepted")
		default:
			times := 1
			if vrt.Param("long", 0) > 0 {
				times = vrt.Param("long", 0)
			}
			for j := 0; j < times; j++ {
				k := len(l.calls)
				failed++
				t0 := time.Now()
				l.ch <- acceptErr{true}
				vrt.Quiesce()
				vrt.Assert(len(l.calls) == k, "a temporary error: the server does not pause before it tries again")
				if j == 0 {
					alive()
				}
				d := 5 * ms
				for e := 1; e < failed && d < 5*time.Second; e++ {
					d *= 2
				}
				if d > 5*time.Second {
					d = 5 * time.Second
				}
				time.Sleep(d - time.Since(t0) - time.Microsecond)
				vrt.Quiesce()
				vrt.Assert(len(l.calls) == k, "a temporary error: the server does not back off")
				time.Sleep(2 * time.Microsecond)
				vrt.Quiesce()
				vrt.Assert(len(l.calls) == k+1, "a temporary error ends the server or stops it for longer than announced")
			}
			vrt.Reach("failed")
		}
		alive()
	}
	if vrt.Choose("last", 2) == 1 {
		// the listener is closed: those that are connected go on
		k := len(l.calls)
		l.ch <- acceptErr{false}
		vrt.Quiesce()
		time.Sleep(time.Minute)
		vrt.Quiesce()
		vrt.Assert(len(l.calls) == k, "Accept is called again after the listener was closed")
		alive()
		vrt.Reach("closed")
	}
	_ = returned
	vrt.Reach("end")
}
