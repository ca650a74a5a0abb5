package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C12: the end of a connection
// ---------------------------------------------------------------------------

// reader reads a subscription until its channel is closed.
type reader struct {
	sub    *stomp.Subscription
	bodies []string
	errs   []string
	closed bool
	goesOn bool // messages may come after an error
}

func (r *reader) run() {
	for m := range r.sub.C {
		if m.Err != nil {
			r.errs = append(r.errs, m.Err.Error())
		} else {
			vrt.Assert(len(r.errs) == 0 || r.goesOn, "a message after the error")
			r.bodies = append(r.bodies, string(m.Body))
		}
	}
	r.closed = true
}

// ended: C has got n messages, the error, and is closed.
func (r *reader) ended(min, max int, errs int) {
	vrt.Assert(r.closed, "the channel of a subscription is not closed when the connection has ended")
	vrt.Assert(len(r.errs) == errs, "a subscription does not get exactly one error when the connection ends")
	vrt.Assert(len(r.bodies) >= min && len(r.bodies) <= max, "messages are lost, or messages that were not sent")
	for i, b := range r.bodies {
		vrt.Assert(b == strconv.Itoa(i), "messages in another order")
	}
	vrt.Assert(!r.sub.Active(), "a subscription is active on a connection that has ended")
}

// Loss: any mixture of calls under way, and any way the connection can end.
func Loss() {
	vrt.Delays(0)
	base := vrt.Goroutines()
	x := newCli("1.2", []string{"heart-beat", "100,0"}, stomp.ConnOpt.HeartBeatError(0),
		stomp.ConnOpt.HeartBeat(time.Second, 100*ms),
		stomp.ConnOpt.WriteChannelCapacity(1), stomp.ConnOpt.ReadChannelCapacity(1))
	var calls []*call
	var readers []*reader
	fed := 0
	disconnecting := false
	for i := 0; i < vrt.Param("acts", 2); i++ {
		s := strconv.Itoa(i)
		if disconnecting {
			break
		}
		switch vrt.Choose("act"+s, 8) {
		case 0:
		case 1:
			c := x.start("Send", func() error { return x.conn.Send("/q", "", nil, stomp.SendOpt.Receipt) })
			x.begun(c, "SEND")
			calls = append(calls, c)
		case 2:
			tx := x.conn.Begin()
			vrt.Quiesce()
			x.c.frames()
			c := x.start("CommitWithReceipt", tx.CommitWithReceipt)
			x.begun(c, "COMMIT")
			calls = append(calls, c)
		case 3: // a subscription that is read
			sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
			vrt.Assert(err == nil, "Subscribe fails")
			r := &reader{sub: sub}
			readers = append(readers, r)
			go r.run()
		case 4: // Unsubscribe
			sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
			vrt.Assert(err == nil, "Subscribe fails")
			vrt.Quiesce()
			x.c.frames()
			r := &reader{sub: sub}
			readers = append(readers, r)
			go r.run()
			c := x.start("Unsubscribe", func() error { return sub.Unsubscribe() })
			x.begun(c, "UNSUBSCRIBE")
			c.sub = sub
			calls = append(calls, c)
		case 5: // a subscription with more messages than its channel holds
			if fed > 0 {
				return
			}
			sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
			vrt.Assert(err == nil, "Subscribe fails")
			vrt.Quiesce()
			x.c.frames()
			readers = append(readers, &reader{sub: sub})
			fed = 16 + vrt.Choose("more", 3)
			for j := 0; j < fed; j++ {
				x.message(sub.Id(), []byte(strconv.Itoa(j)))
			}
		case 6: // Disconnect
			c := x.start("Disconnect", x.conn.Disconnect)
			x.begun(c, "DISCONNECT")
			calls = append(calls, c)
			disconnecting = true
		case 7: // Read
			sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
			vrt.Assert(err == nil, "Subscribe fails")
			c := x.start("Read", func() error {
				_, err := sub.Read()
				return err
			})
			vrt.Quiesce()
			c.pending()
			calls = append(calls, c)
		}
		vrt.Quiesce()
		x.c.frames()
	}
	vrt.Delays(-1)
	var last *call
	msg := ""
	switch vrt.Choose("cause", 10) {
	case 0:
		x.c.hangup()
	case 1:
		x.c.readErr = errWrite
		x.c.hangup()
	case 2:
		x.c.feed([]byte("NONSENSE\n\n\x00"))
	case 3:
		msg = plain("message", 1)
		x.c.feed(enc("ERROR", nil, "message", msg))
	case 4:
		x.c.feed(enc("RECEIPT", nil, "x", "y"))
	case 5: // a write fails
		if disconnecting {
			return
		}
		x.c.mu.Lock()
		x.c.wleft = vrt.Concrete(vrt.IntRange("wleft", 0, 3))
		x.c.mu.Unlock()
		last = x.start("Send", func() error { return x.conn.Send("/q", "", nil, stomp.SendOpt.Receipt) })
	case 6: // the server is silent
		if fed > 0 {
			// with a subscription that is not read the client does not
			// read, and the silence of the server is not its fault
			return
		}
		time.Sleep(250 * ms)
	case 7:
		last = x.start("MustDisconnect", x.conn.MustDisconnect)
	case 8: // Disconnect that is answered
		if disconnecting {
			return
		}
		last = x.start("Disconnect", x.conn.Disconnect)
		vrt.Quiesce()
		for _, f := range x.c.frames() {
			x.c.feed(enc("RECEIPT", nil, "receipt-id", f.get("receipt")))
		}
	case 9: // two at the same time
		last = x.start("MustDisconnect", x.conn.MustDisconnect)
		x.c.hangup()
	}
	vrt.Quiesce()
	// those that are not read yet
	for _, r := range readers {
		if !r.closed {
			go r.run()
		}
	}
	vrt.Quiesce()
	vrt.Assert(x.c.down(), "the connection is not closed")
	for _, c := range calls {
		if c.sub != nil {
			vrt.Assert(c.done, c.what+" does not return although the connection has ended")
		} else if c.what == "Disconnect" {
			vrt.Assert(c.done, c.what+" does not return although the connection has ended")
		} else {
			c.failed("the connection has ended")
			if msg != "" && fed == 0 {
				vrt.Assert(vrt.EqStr(c.err.Error(), msg), c.what+" does not return the message of the ERROR frame")
			}
		}
	}
	if last != nil {
		vrt.Assert(last.done, last.what+" does not return")
		switch last.what {
		case "Send":
			vrt.Assert(last.err != nil, "Send succeeds although the connection is lost")
		case "Disconnect":
			vrt.Assert(last.err == nil || fed > 0, "Disconnect fails")
		}
	}
	for _, r := range readers {
		n := 0
		min := 0
		if len(readers) > 0 && fed > 0 && len(r.bodies) > 0 {
			n = fed
			min = 16
		}
		r.ended(min, n, 1)
		if msg != "" && fed == 0 {
			vrt.Assert(vrt.EqStr(r.errs[0], msg), "a subscription does not get the message of the ERROR frame")
		}
	}
	// nothing works any more, nothing is sent, and nothing blocks
	seen := len(x.c.out)
	after := []*call{
		x.start("Send", func() error { return x.conn.Send("/q", "", nil) }),
		x.start("Send with a receipt", func() error { return x.conn.Send("/q", "", nil, stomp.SendOpt.Receipt) }),
		x.start("Subscribe", func() error { _, err := x.conn.Subscribe("/d", stomp.AckAuto); return err }),
		x.start("BeginWithError", func() error { _, err := x.conn.BeginWithError(); return err }),
	}
	for _, r := range readers {
		sub := r.sub
		after = append(after, x.start("Unsubscribe", func() error { return sub.Unsubscribe() }),
			x.start("Read", func() error { _, err := sub.Read(); return err }))
	}
	vrt.Quiesce()
	for _, c := range after {
		c.failed("the connection has ended")
	}
	for _, f := range []func() error{x.conn.Disconnect, x.conn.MustDisconnect} {
		c := x.start("Disconnect", f)
		vrt.Quiesce()
		vrt.Assert(c.done && c.err == nil, "Disconnect fails or blocks after the end of the connection")
	}
	vrt.Assert(len(x.c.out) == seen, "something is sent after the end of the connection")
	vrt.Assert(vrt.Goroutines() == base, "a connection that has ended leaves go-routines behind")
	vrt.Reach("end")
}

// LossStalled: the end of a connection whose server does not read, with calls
// that wait to write.
func LossStalled() {
	vrt.Delays(0)
	base := vrt.Goroutines()
	x := newCli("1.2", nil, stomp.ConnOpt.MsgSendTimeout(0), stomp.ConnOpt.WriteChannelCapacity(1), stomp.ConnOpt.DisconnectReceiptTimeout(discTimeout))
	sub, err := x.conn.Subscribe("/d", stomp.AckClient)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	x.c.frames()
	r := &reader{sub: sub}
	x.message(sub.Id(), []byte("0"), kv{"ack", "1"})
	m := <-sub.C
	go r.run()
	vrt.Delays(-1)
	x.c.mu.Lock()
	x.c.stall = make(chan struct{})
	x.c.mu.Unlock()
	var calls []*call
	n := 3 + vrt.Choose("n", 2)
	slots, unsub := 0, false
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		switch vrt.Choose("call"+s, vrt.Param("calls", 5)) {
		case 0:
			calls = append(calls, x.start("Send", func() error { return x.conn.Send("/q", "", nil) }))
		case 1:
			calls = append(calls, x.start("Send with a receipt", func() error { return x.conn.Send("/q", "", nil, stomp.SendOpt.Receipt) }))
		case 2:
			calls = append(calls, x.start("Ack", func() error { return x.conn.Ack(m) }))
		case 3:
			calls = append(calls, x.start("Subscribe", func() error { _, err := x.conn.Subscribe("/e", stomp.AckAuto); return err }))
		case 4:
			calls = append(calls, x.start("Unsubscribe", func() error { return sub.Unsubscribe() }))
			if unsub {
				slots--
			}
			unsub = true
		}
		// one frame is being written, one waits in the channel
		slots++
		calls[i].over = slots <= 2
		vrt.Quiesce()
	}
	var last *call
	switch vrt.Choose("cause", 3) {
	case 0:
		last = x.start("MustDisconnect", x.conn.MustDisconnect)
	case 1:
		last = x.start("Disconnect", x.conn.Disconnect)
		time.Sleep(discTimeout + ms)
	case 2: // the connection breaks
		last = x.start("Disconnect", func() error { return nil })
		x.c.hangup()
		x.c.mu.Lock()
		x.c.wleft = 0
		x.c.mu.Unlock()
		close(x.c.stall)
	}
	vrt.Quiesce()
	vrt.Assert(x.c.down(), "the connection is not closed")
	vrt.Assert(last.done, last.what+" does not return")
	for _, c := range calls {
		vrt.Assert(c.done, c.what+" does not return although the connection has ended")
		if !c.over {
			vrt.Assert(c.err != nil, c.what+" succeeds although the connection has ended")
		}
	}
	r.ended(0, 0, 1)
	vrt.Assert(len(x.c.frames()) == 0, "something is sent after the end of the connection")
	vrt.Assert(vrt.Goroutines() == base, "a connection that has ended leaves go-routines behind")
	vrt.Reach("end")
}
