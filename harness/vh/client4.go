package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C10: receipts
// ---------------------------------------------------------------------------

// call is a call of the program that is under way.
type call struct {
	what    string
	f       wframe // the frame it sent
	id      string // its receipt
	since   time.Time
	timeout time.Duration // 0: none
	toErr   error
	done    bool
	err     error
	at      time.Time
	over    bool // the harness knows that it has ended
	sub     *stomp.Subscription
}

// start runs f, which waits for a receipt.
func (x *cli) start(what string, f func() error) *call {
	c := &call{what: what, since: time.Now()}
	go func() {
		c.err = f()
		c.at = time.Now()
		c.done = true
	}()
	return c
}

// begun: the call has sent a frame with a receipt and waits.
func (x *cli) begun(c *call, cmd string) {
	vrt.Quiesce()
	fs := x.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == cmd, c.what+" does not send its frame")
	c.f = fs[0]
	c.id = c.f.get("receipt")
	vrt.Assert(c.id != "", c.what+" does not ask for a receipt")
	vrt.Assert(!c.done, c.what+" does not wait for its receipt")
}

func (c *call) pending() { vrt.Assert(!c.done, c.what+" returns before its receipt") }
func (c *call) ok() {
	vrt.Assert(c.done, c.what+" does not return when its receipt has come")
	vrt.Assert(c.err == nil, c.what+" fails although its receipt has come")
	c.over = true
}
func (c *call) failed(why string) {
	vrt.Assert(c.done, c.what+" does not return although "+why)
	vrt.Assert(c.err != nil, c.what+" succeeds although "+why)
	c.over = true
}

const (
	rcptTimeout = 50 * ms
	discTimeout = 70 * ms
)

// request starts one of the calls that wait for a RECEIPT frame.
func (x *cli) request(n int) *call {
	s := strconv.Itoa(n)
	var c *call
	switch vrt.Choose("kind"+s, vrt.Param("kinds", 5)) {
	case 0:
		c = x.start("Send", func() error {
			return x.conn.Send("/queue/a", "", []byte("x"), stomp.SendOpt.Receipt)
		})
		c.timeout, c.toErr = rcptTimeout, stomp.ErrMsgReceiptTimeout
		x.begun(c, "SEND")
	case 1:
		c = x.start("Disconnect", x.conn.Disconnect)
		c.timeout, c.toErr = discTimeout, stomp.ErrDisconnectReceiptTimeout
		x.begun(c, "DISCONNECT")
	case 2:
		tx := x.conn.Begin()
		vrt.Quiesce()
		x.c.frames()
		c = x.start("CommitWithReceipt", tx.CommitWithReceipt)
		x.begun(c, "COMMIT")
	case 3:
		tx := x.conn.Begin()
		vrt.Quiesce()
		x.c.frames()
		c = x.start("AbortWithReceipt", tx.AbortWithReceipt)
		x.begun(c, "ABORT")
	case 4:
		tx := x.conn.Begin()
		vrt.Quiesce()
		x.c.frames()
		c = x.start("Transaction.Send", func() error {
			return tx.Send("/queue/a", "", nil, stomp.SendOpt.Receipt)
		})
		x.begun(c, "SEND")
	}
	return c
}

// Receipts: requests that wait, and everything a server may send meanwhile.
func Receipts() {
	x := newCli([]string{"1.0", "1.2"}[vrt.Choose("ver", 2)], nil,
		stomp.ConnOpt.RcvReceiptTimeout(rcptTimeout), stomp.ConnOpt.DisconnectReceiptTimeout(discTimeout))
	base := vrt.Goroutines()
	var reqs []*call
	for i := 0; i < vrt.Param("req", 1); i++ {
		if i > 0 && reqs[i-1].what == "Disconnect" {
			break
		}
		c := x.request(i)
		for _, r := range reqs {
			vrt.Assert(!vrt.EqStr(r.id, c.id), "two requests with the same receipt")
		}
		reqs = append(reqs, c)
	}
	down := false
	end := func() {
		down = true
		for _, r := range reqs {
			if !r.over {
				r.failed("the connection has ended")
			}
		}
	}
	check := func() {
		vrt.Quiesce()
		// a Disconnect that times out ends all the others
		for i := len(reqs) - 1; i >= 0; i-- {
			r := reqs[i]
			if r.over {
				continue
			}
			if r.timeout > 0 && vrt.ConcreteBool(time.Since(r.since) >= r.timeout) {
				r.failed("its timeout has passed")
				if !down {
					vrt.Assert(r.err == r.toErr, r.what+" does not report its timeout")
					vrt.Assert(r.at.Sub(r.since) == r.timeout, r.what+" returns too early or too late")
				}
				vrt.Reach("timeout")
				if r.what == "Disconnect" {
					end()
				}
			} else {
				r.pending()
			}
		}
		vrt.Assert(x.c.down() == down, "the connection is closed, or is not closed")
	}
	for i := 0; i < vrt.Param("n", 2) && !down; i++ {
		s := strconv.Itoa(i)
		switch vrt.Choose("event"+s, 6) {
		case 0: // the receipt of a request, also when it is too late or a second time
			r := reqs[vrt.Choose("of"+s, len(reqs))]
			x.c.feed(enc("RECEIPT", nil, "receipt-id", r.id, "x", "y"))
			vrt.Quiesce()
			if !r.over {
				r.ok()
				vrt.Reach("ok")
				if r.what == "Disconnect" {
					end()
				}
			} else {
				vrt.Reach("late")
			}
		case 1: // another receipt
			id := plain("id"+s, vrt.Choose("idlen"+s, 3))
			for _, r := range reqs {
				vrt.Assume(!vrt.EqStr(r.id, id))
			}
			x.c.feed(enc("RECEIPT", nil, "receipt-id", id))
			vrt.Reach("other")
		case 2: // time
			d := time.Duration(vrt.IntRange("t"+s, 1, 100)) * ms
			time.Sleep(d)
		case 3: // a message or a heart-beat
			if vrt.Choose("beat"+s, 2) == 0 {
				x.c.feed([]byte("\n"))
			} else {
				r := reqs[vrt.Choose("of"+s, len(reqs))]
				x.c.feed(enc("MESSAGE", nil, "subscription", r.id, "receipt-id", r.id, "message-id", "m", "destination", "/d"))
			}
		case 4: // ERROR
			r := reqs[vrt.Choose("of"+s, len(reqs))]
			msg := plain("msg"+s, 1)
			x.c.feed(enc("ERROR", nil, "message", msg, "receipt-id", r.id))
			vrt.Quiesce()
			for _, r := range reqs {
				if !r.over {
					r.failed("the server sent an ERROR frame")
					if r.what != "Disconnect" {
						vrt.Assert(vrt.EqStr(r.err.Error(), msg), r.what+" does not return the message of the ERROR frame")
					}
				}
			}
			down = true
			vrt.Reach("error")
		case 5: // the connection is lost
			x.c.hangup()
			vrt.Quiesce()
			end()
			vrt.Reach("lost")
		}
		check()
	}
	// the connection still works
	gone := down
	for _, r := range reqs {
		gone = gone || r.what == "Disconnect"
	}
	if !gone {
		c := x.start("Send", func() error { return x.conn.Send("/queue/b", "", nil, stomp.SendOpt.Receipt) })
		x.begun(c, "SEND")
		for _, r := range reqs {
			vrt.Assert(!vrt.EqStr(r.id, c.id), "two requests with the same receipt")
		}
		x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id))
		vrt.Quiesce()
		c.ok()
	} else {
		err := x.conn.Send("/queue/b", "", nil)
		vrt.Assert(err != nil, "Send succeeds on a connection that has ended")
		vrt.Assert(len(x.c.frames()) == 0, "something is sent after the end")
	}
	if down {
		vrt.Quiesce()
		vrt.Assert(vrt.Goroutines() <= base-2, "a connection that has ended leaves go-routines behind")
	}
	vrt.Reach("end")
}

// ReceiptRace: two requests at the same time, a server that answers each as
// soon as it has come, in any order.
func ReceiptRace() {
	vrt.Delays(0)
	x := newCli("1.2", nil)
	vrt.Delays(-1)
	n := vrt.Param("req", 2)
	cs := make([]*call, n)
	for i := range cs {
		i := i
		cs[i] = x.start("Send", func() error {
			return x.conn.Send("/queue/"+string(rune('a'+i)), "", nil, stomp.SendOpt.Receipt)
		})
	}
	vrt.Quiesce()
	fs := x.c.frames()
	vrt.Assert(len(fs) == n, "the frames of two requests are not sent")
	for _, f := range fs {
		d := f.get("destination")
		c := cs[d[len(d)-1]-'a']
		vrt.Assert(f.cmd == "SEND" && c.id == "", "a request is sent twice")
		c.id = f.get("receipt")
	}
	first := vrt.Choose("first", n)
	answers := vrt.Choose("answers", 2)
	go x.c.feed(enc("RECEIPT", nil, "receipt-id", cs[first].id))
	if answers == 1 {
		go x.c.feed(enc("RECEIPT", nil, "receipt-id", cs[(first+1)%n].id))
	}
	vrt.Quiesce()
	for i, c := range cs {
		if i == first || answers == 1 && i == (first+1)%n {
			c.ok()
		} else {
			c.pending()
		}
	}
	x.c.hangup()
	vrt.Quiesce()
	for _, c := range cs {
		if !c.over {
			c.failed("the connection is lost")
		}
	}
	vrt.Reach("end")
}

// ReceiptStall: a server that does not read: Send returns at its timeout, and
// what it was about to send never appears.
func ReceiptStall() {
	t := 50 * ms
	x := newCli("1.2", nil, stomp.ConnOpt.MsgSendTimeout(t), stomp.ConnOpt.RcvReceiptTimeout(rcptTimeout),
		stomp.ConnOpt.WriteChannelCapacity(1), stomp.ConnOpt.DisconnectReceiptTimeout(discTimeout))
	base := vrt.Goroutines()
	x.c.mu.Lock()
	x.c.stall = make(chan struct{})
	x.c.mu.Unlock()
	// one frame in the write, one in the channel
	send := func(i int, opts ...frameOpt) func() error {
		return func() error { return x.conn.Send("/queue/"+strconv.Itoa(i), "", nil, opts...) }
	}
	for i := 0; i < 2; i++ {
		c := x.start("Send", send(i))
		vrt.Quiesce()
		c.ok()
	}
	var c *call
	switch vrt.Choose("kind", 3) {
	case 0:
		c = x.start("Send", send(2))
	case 1:
		c = x.start("Send with a receipt", send(2, stomp.SendOpt.Receipt))
	case 2:
		c = x.start("Disconnect", x.conn.Disconnect)
	}
	vrt.Quiesce()
	c.pending()
	d := time.Duration(vrt.IntRange("t", 1, 200)) * ms
	lim := t
	if c.what == "Disconnect" {
		lim = discTimeout
	}
	vrt.Assume(d != lim)
	time.Sleep(d)
	vrt.Quiesce()
	if vrt.ConcreteBool(d > lim) {
		c.failed("the server does not read")
		vrt.Assert(c.at.Sub(c.since) == lim, c.what+" returns too early or too late")
		if c.what == "Disconnect" {
			vrt.Assert(c.err == stomp.ErrDisconnectReceiptTimeout, "Disconnect does not report its timeout")
			vrt.Assert(x.c.down(), "Disconnect does not close the connection")
			vrt.Assert(vrt.Goroutines() <= base-2, "a connection that has ended leaves go-routines behind")
			vrt.Reach("disconnect")
			return
		}
		vrt.Assert(c.err == stomp.ErrMsgSendTimeout, "Send does not report its timeout")
		vrt.Reach("timeout")
	} else {
		c.pending()
	}
	// the server reads again
	close(x.c.stall)
	x.c.mu.Lock()
	x.c.stall = nil
	x.c.mu.Unlock()
	vrt.Quiesce()
	want := []string{"/queue/0", "/queue/1"}
	if !c.over {
		want = append(want, "/queue/2")
	}
	fs := x.c.frames()
	vrt.Assert(len(fs) == len(want), "frames are lost, or a frame is sent although its call failed")
	for i, f := range fs {
		if i == 2 && c.what == "Disconnect" {
			vrt.Assert(f.cmd == "DISCONNECT", "frames are sent in another order")
			c.id = f.get("receipt")
			continue
		}
		vrt.Assert(f.cmd == "SEND" && f.get("destination") == want[i], "frames are sent in another order")
		if i == 2 {
			c.id = f.get("receipt")
		}
	}
	if !c.over {
		if c.what == "Send" {
			c.ok()
		} else {
			c.pending()
			x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id))
			vrt.Quiesce()
			c.ok()
		}
	}
	if c.what != "Disconnect" {
		l := x.start("Send", send(3))
		vrt.Quiesce()
		l.ok()
		vrt.Assert(len(x.c.frames()) == 1, "the connection does not work after a timeout")
	}
	vrt.Reach("end")
}
