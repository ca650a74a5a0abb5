package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C13: Unsubscribe
// ---------------------------------------------------------------------------

const unsubTimeout = 60 * ms

// Unsub: Unsubscribe, possibly twice at the same time, while messages arrive
// and while the connection ends or the server takes too long to answer.
func Unsub() {
	vrt.Delays(0)
	base := vrt.Goroutines()
	x := newCli("1.2", nil, stomp.ConnOpt.UnsubscribeReceiptTimeout(unsubTimeout))
	var opts []frameOpt
	if vrt.Choose("id", 2) == 1 {
		opts = append(opts, stomp.SubscribeOpt.Id("s"))
	}
	sub, err := x.conn.Subscribe("/d", stomp.AckAuto, opts...)
	vrt.Assert(err == nil, "Subscribe fails")
	other, err := x.conn.Subscribe("/e", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	x.c.frames()
	r := &reader{sub: sub}
	vrt.Delays(-1)
	// messages that are on their way
	n := vrt.Choose("before", vrt.Param("msgs", 2)+1)
	read := vrt.Choose("reader", 2)
	if read == 1 {
		go r.run()
	}
	for i := 0; i < n; i++ {
		x.message(sub.Id(), []byte(strconv.Itoa(i)))
	}
	two := vrt.Choose("two", 2) == 1
	calls := []*call{x.start("Unsubscribe", func() error { return sub.Unsubscribe() })}
	if two {
		calls = append(calls, x.start("a second Unsubscribe", func() error { return sub.Unsubscribe() }))
	}
	vrt.Quiesce()
	fs := x.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "UNSUBSCRIBE" && fs[0].get("id") == sub.Id() && fs[0].has("receipt"), "Unsubscribe does not send exactly one UNSUBSCRIBE frame")
	c := calls[0]
	if two {
		vrt.Assert(calls[0].done != calls[1].done, "of two calls of Unsubscribe not exactly one waits")
		o := calls[1]
		if c.done {
			c, o = o, c
		}
		vrt.Assert(o.err == stomp.ErrCompletedSubscription, "the second Unsubscribe does not report that it is the second")
	}
	c.pending()
	vrt.Assert(!sub.Active(), "a subscription is active while it is unsubscribed")
	c.id = fs[0].get("receipt")
	// messages the server sent before it saw UNSUBSCRIBE
	for k := vrt.Choose("between", vrt.Param("msgs", 2)+1); k > 0; k-- {
		x.message(sub.Id(), []byte(strconv.Itoa(n)))
		n++
	}
	min, errs := n, 0
	receipt := func() { x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id)) }
	end := vrt.Choose("end", 8)
	switch end {
	case 0:
		receipt()
	case 1: // and messages that come after it
		receipt()
		x.message(sub.Id(), []byte("late"))
		x.message(other.Id(), []byte("0"))
	case 2: // the connection is lost
		x.c.hangup()
		errs = 1
	case 3: // the connection is lost at the same time
		go receipt()
		vrt.Quiesce()
		go x.c.hangup()
	case 4: // closed at the same time
		receipt()
		x.start("MustDisconnect", x.conn.MustDisconnect)
		min = 0
		errs = -1
	case 5: // no answer
		d := unsubTimeout - time.Duration(vrt.IntRange("t", 0, 2)-1)*ms
		time.Sleep(d)
		vrt.Quiesce()
		if vrt.ConcreteBool(d < unsubTimeout) {
			c.pending()
			receipt()
			end = 0
			break
		}
		vrt.Quiesce()
		vrt.Assert(c.done, "Unsubscribe does not return at its timeout")
		vrt.Assert(c.err == &stomp.ErrUnsubscribeReceiptTimeout, "Unsubscribe does not report its timeout")
		errs = 1
		r.goesOn = true
		if vrt.Choose("late", 2) == 1 {
			// the answer comes after all
			receipt()
			end = 0
		}
	case 6: // the answer and the timeout at the same time
		go receipt()
		time.Sleep(unsubTimeout)
		vrt.Quiesce()
		errs = -1
	case 7: // the connection is lost and the timeout at the same time
		x.start("MustDisconnect", x.conn.MustDisconnect)
		time.Sleep(unsubTimeout)
		min = 0
		errs = -1
	}
	vrt.Quiesce()
	vrt.Assert(c.done, "Unsubscribe does not return")
	if end == 0 && errs == 0 || end == 1 || end == 3 {
		vrt.Assert(c.err == nil, "Unsubscribe fails although the server has answered")
	}
	if read == 0 {
		go r.run()
	}
	vrt.Quiesce()
	vrt.Assert(len(x.c.frames()) == 0, "Unsubscribe sends more than one frame")
	if end == 5 {
		// never answered
		vrt.Assert(!r.closed && len(r.errs) == 1 && len(r.bodies) == n, "Unsubscribe that has no answer: wrong content of the channel")
		x.message(sub.Id(), []byte("x"))
		vrt.Quiesce()
		vrt.Assert(!x.c.down(), "the connection is closed by an Unsubscribe that has no answer")
		x.conn.MustDisconnect()
		vrt.Quiesce()
		vrt.Assert(r.closed, "the channel is not closed in the end")
	} else {
		vrt.Assert(r.closed, "the channel is not closed by Unsubscribe")
		vrt.Assert(len(r.errs) == errs || errs < 0 && len(r.errs) <= 2, "wrong number of errors in the channel")
		vrt.Assert(len(r.bodies) >= min && len(r.bodies) <= n, "messages are lost, or come after the end of a subscription")
		vrt.Assert(!sub.Active() && sub.Unsubscribe() == stomp.ErrCompletedSubscription, "a subscription is active after Unsubscribe")
	}
	for i, b := range r.bodies {
		vrt.Assert(i >= n && end == 5 || b == strconv.Itoa(i), "messages in another order")
	}
	// the other subscription and the connection go on
	if end < 2 || end == 6 {
		vrt.Assert(!x.c.down() && other.Active(), "Unsubscribe ends the connection or another subscription")
		x.message(other.Id(), []byte("0"))
		vrt.Quiesce()
		m := <-other.C
		vrt.Assert(m.Err == nil && string(m.Body) == "0", "Unsubscribe disturbs another subscription")
		for len(other.C) > 0 {
			<-other.C
		}
		s := x.start("Send", func() error { return x.conn.Send("/q", "", nil) })
		vrt.Quiesce()
		s.ok()
		vrt.Assert(len(x.c.frames()) == 1, "the connection does not work after Unsubscribe")
		x.conn.MustDisconnect()
	}
	vrt.Quiesce()
	for range other.C {
	}
	vrt.Quiesce()
	vrt.Assert(vrt.Goroutines() == base, "Unsubscribe leaves go-routines behind")
	vrt.Reach("end")
}

// works: the connection does what it should: frames are sent and answered,
// messages arrive.
func (x *cli) works() {
	vrt.Quiesce()
	x.c.frames()
	vrt.Assert(!x.c.down(), "the connection is closed")
	sub, err := x.conn.Subscribe("/works", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails on a connection that should work")
	c := x.start("Send", func() error { return x.conn.Send("/works", "", nil, stomp.SendOpt.Receipt) })
	vrt.Quiesce()
	fs := x.c.frames()
	vrt.Assert(len(fs) == 2 && fs[0].cmd == "SUBSCRIBE" && fs[1].cmd == "SEND", "the connection does not send frames any more")
	x.message(sub.Id(), []byte("works"))
	x.c.feed(enc("RECEIPT", nil, "receipt-id", fs[1].get("receipt")))
	vrt.Quiesce()
	c.ok()
	vrt.Assert(len(sub.C) == 1, "messages do not arrive any more")
	m := <-sub.C
	vrt.Assert(m.Err == nil && string(m.Body) == "works", "another message arrives")
}

// UnsubFull: nobody reads the channel, with any number of messages in it.
func UnsubFull() {
	vrt.Delays(0)
	x := newCli("1.2", nil, stomp.ConnOpt.UnsubscribeReceiptTimeout(unsubTimeout))
	sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	x.c.frames()
	n := vrt.Concrete(vrt.IntRange("n", 0, vrt.Param("n", 20)))
	for i := 0; i < n; i++ {
		x.message(sub.Id(), []byte(strconv.Itoa(i)))
	}
	vrt.Delays(-1)
	c := x.start("Unsubscribe", func() error { return sub.Unsubscribe() })
	x.begun(c, "UNSUBSCRIBE")
	answer := vrt.Choose("answer", 2) == 1
	if answer {
		x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id))
		vrt.Quiesce()
	}
	if answer && n <= 16 {
		c.ok()
	} else {
		c.pending()
		time.Sleep(unsubTimeout)
		vrt.Quiesce()
		c.failed("its timeout has passed")
		vrt.Assert(c.err == &stomp.ErrUnsubscribeReceiptTimeout, "Unsubscribe does not report its timeout")
		if !answer {
			x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id))
		}
	}
	r := &reader{sub: sub}
	go r.run()
	vrt.Quiesce()
	vrt.Assert(r.closed, "the channel is not closed by Unsubscribe")
	vrt.Assert(len(r.bodies) == n, "messages are lost")
	for i, b := range r.bodies {
		vrt.Assert(b == strconv.Itoa(i), "messages in another order")
	}
	vrt.Reach("end")
}

// UnsubOpts: options and reply-to subscriptions.
func UnsubOpts() {
	x := newCli("1.2", nil, stomp.ConnOpt.UnsubscribeReceiptTimeout(unsubTimeout))
	if vrt.Choose("reply", 2) == 1 {
		// a temporary queue: known to the client only
		name := "/temp-queue/" + plain("name", 1)
		sub, err := x.conn.Subscribe("/d", stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", name))
		vrt.Assert(err == nil, "Subscribe fails")
		vrt.Quiesce()
		vrt.Assert(len(x.c.frames()) == 0, "a reply-to subscription is sent to the server")
		n := vrt.Choose("n", 3)
		for i := 0; i < n; i++ {
			x.message(name, []byte(strconv.Itoa(i)))
		}
		vrt.Quiesce()
		c := x.start("Unsubscribe", func() error { return sub.Unsubscribe() })
		vrt.Quiesce()
		vrt.Assert(len(x.c.frames()) == 0, "the Unsubscribe of a reply-to subscription is sent to the server")
		vrt.Assert(c.done && c.err == nil, "the Unsubscribe of a reply-to subscription fails")
		x.message(name, []byte("late"))
		vrt.Quiesce()
		r := &reader{sub: sub}
		r.run()
		vrt.Assert(len(r.bodies) == n && len(r.errs) == 0 && r.closed, "a reply-to subscription: wrong content of the channel")
		vrt.Assert(!x.c.down(), "the connection is closed")
		x.works()
		if vrt.Choose("again", 2) == 1 {
			// the same queue once more
			sub, err := x.conn.Subscribe("/d", stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", name))
			vrt.Assert(err == nil, "Subscribe fails")
			vrt.Quiesce()
			x.message(name, []byte("again"))
			vrt.Quiesce()
			vrt.Assert(len(sub.C) == 1, "a reply-to subscription gets no messages")
			m := <-sub.C
			vrt.Assert(m.Err == nil && string(m.Body) == "again", "a reply-to subscription gets another message")
			x.c.hangup()
			vrt.Quiesce()
			m = <-sub.C
			vrt.Assert(m != nil && m.Err != nil, "a reply-to subscription is not told about the end of the connection")
			m = <-sub.C
			vrt.Assert(m == nil, "the channel is not closed")
		}
		vrt.Reach("reply")
		return
	}
	sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	x.c.frames()
	// an option that fails: nothing happens
	bad := vrt.Choose("bad", 3)
	switch bad {
	case 1:
		vrt.Assert(sub.Unsubscribe(nil) == stomp.ErrNilOption, "a nil option is accepted")
	case 2:
		vrt.Assert(sub.Unsubscribe(stomp.SubscribeOpt.Header("a", "b"), stomp.SendOpt.Receipt) != nil, "a wrong option is accepted")
	}
	vrt.Quiesce()
	vrt.Assert(len(x.c.frames()) == 0 && sub.Active(), "an Unsubscribe that fails changes something")
	w := x.message(sub.Id(), []byte("x"))
	vrt.Quiesce()
	vrt.Assert(len(sub.C) == 1, "an Unsubscribe that fails changes something")
	(&csub{Subscription: sub}).expect(x, w, <-sub.C)
	k, v := plain("k", 1), plain("v", 1)
	if vrt.Choose("receipt", 2) == 1 {
		k = "receipt"
	}
	c := x.start("Unsubscribe", func() error { return sub.Unsubscribe(stomp.SubscribeOpt.Header(k, v)) })
	x.begun(c, "UNSUBSCRIBE")
	if k != "receipt" {
		vrt.Assert(vrt.EqStr(c.f.get(k), v), "a header of Unsubscribe is not sent")
	}
	x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id))
	vrt.Quiesce()
	c.ok()
	m, ok := <-sub.C
	vrt.Assert(m == nil && !ok, "the channel is not closed by Unsubscribe")
	if vrt.Choose("late", 2) == 1 {
		x.message(sub.Id(), []byte("late"))
		x.c.feed(enc("RECEIPT", nil, "receipt-id", c.id))
	}
	x.works()
	vrt.Reach("options")
}

// ---------------------------------------------------------------------------
// C14: unique ids
// ---------------------------------------------------------------------------

// Ids: several go-routines on two connections ask for ids at the same time.
func Ids() {
	vrt.Delays(0)
	xs := []*cli{newCli("1.2", nil), newCli("1.1", nil)}
	vrt.Delays(-1)
	type taken struct{ what, id string }
	var ids []taken
	g := vrt.Param("g", 3)
	n := 0
	for i := 0; i < g; i++ {
		x := xs[vrt.Choose("conn"+strconv.Itoa(i), 2)]
		ops := make([]int, vrt.Param("ops", 2))
		for j := range ops {
			ops[j] = vrt.Choose("op"+strconv.Itoa(i)+strconv.Itoa(j), 4)
		}
		go func() {
			for _, op := range ops {
				switch op {
				case 0:
					sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
					vrt.Assert(err == nil, "Subscribe fails")
					ids = append(ids, taken{"SUBSCRIBE", sub.Id()})
				case 1:
					tx, err := x.conn.BeginWithError()
					vrt.Assert(err == nil, "Begin fails")
					ids = append(ids, taken{"BEGIN", tx.Id()})
				case 2:
					// whatever the option, the frame carries the receipt
					go x.conn.Send("/q", "", nil, stomp.SendOpt.Receipt)
				case 3:
					tx, err := x.conn.BeginWithError()
					vrt.Assert(err == nil, "Begin fails")
					ids = append(ids, taken{"BEGIN", tx.Id()})
					go tx.AbortWithReceipt()
				}
			}
			n++
		}()
	}
	vrt.Quiesce()
	vrt.Assert(n == g, "a call blocks")
	wire := 0
	for _, x := range xs {
		for _, f := range x.c.frames() {
			id := ""
			switch f.cmd {
			case "SUBSCRIBE":
				id = f.get("id")
			case "BEGIN":
				id = f.get("transaction")
			case "SEND", "ABORT":
				ids = append(ids, taken{"receipt", f.get("receipt")})
				continue
			default:
				vrt.Assert(false, "an unexpected frame")
			}
			wire++
			known := false
			for _, t := range ids {
				known = known || t.what == f.cmd && t.id == id
			}
			vrt.Assert(known, "a frame with an id that nobody was given")
		}
	}
	for i, t := range ids {
		vrt.Assert(t.id != "", "an empty id")
		for _, o := range ids[:i] {
			vrt.Assert(t.id != o.id, "the same id is given twice")
		}
		if t.what != "receipt" {
			wire--
		}
	}
	vrt.Assert(wire == 0, "a frame is lost or sent twice")
	vrt.Reach("end")
}
