package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C11: messages reach the subscription they are for
// ---------------------------------------------------------------------------

// csub is a subscription of the program under test and what it should get.
type csub struct {
	*stomp.Subscription
	want  []wantMsg
	unsub bool
}

type wantMsg struct {
	hs   []kv
	body []byte
}

// expect: the next message in C is w.
func (s *csub) expect(x *cli, w wantMsg, m *stomp.Message) {
	vrt.Assert(m != nil, "a message is lost")
	vrt.Assert(m.Err == nil, "an error instead of a message")
	vrt.Assert(m.Subscription == s.Subscription && m.Conn == x.conn, "a message belongs to another subscription or connection")
	vrt.Assert(vrt.EqBytes(m.Body, w.body), "the body of a message is changed, or messages are in another order")
	var got []kv
	for i := 0; i < m.Header.Len(); i++ {
		k, v := m.Header.GetAt(i)
		got = append(got, kv{k, v})
	}
	vrt.Assert(sameHeaders(got, w.hs), "the headers of a message are changed")
	vrt.Assert(vrt.EqStr(m.Destination, getOr(w.hs, "destination")), "Message.Destination is wrong")
	vrt.Assert(vrt.EqStr(m.ContentType, getOr(w.hs, "content-type")), "Message.ContentType is wrong")
}

const nobody = "nobody in particular"

// message feeds a MESSAGE for the subscription id (or nobody).
func (x *cli) message(id string, body []byte, more ...kv) wantMsg {
	hs := []kv{{"destination", "/d"}, {"message-id", "m"}}
	if id != nobody {
		hs = append(hs, kv{"subscription", id})
	}
	hs = append(hs, more...)
	x.c.feed(refEncode("MESSAGE", hs, body))
	return wantMsg{hs, body}
}

// Route: several subscriptions, some of whose ids the program chooses (they
// may look like the receipts and ids the client chooses itself), and messages,
// receipts and other frames for them and for nobody.
func Route() {
	x := newCli([]string{"1.2", "1.1", "1.0"}[vrt.Choose("ver", vrt.Param("vers", 3))], nil)
	if vrt.Param("chunk", 0) > 0 {
		x.c.chunk = 1 + vrt.Choose("chunk", vrt.Param("chunk", 0))
	}
	var subs []*csub
	var ids []string
	for i := 0; i < vrt.Param("subs", 2); i++ {
		s := strconv.Itoa(i)
		var opts []frameOpt
		switch vrt.Choose("id"+s, 3) {
		case 1: // a number, as the client itself chooses
			id := string([]byte{vrt.Byte("num" + s)})
			vrt.Assume(vrt.And(id[0] >= '0', id[0] <= '9'))
			opts = append(opts, stomp.SubscribeOpt.Id(id))
		case 2: // anything
			opts = append(opts, stomp.SubscribeOpt.Id(plain("text"+s, 1+vrt.Choose("len"+s, 2))))
		}
		sub, err := x.conn.Subscribe("/d", stomp.AckAuto, opts...)
		vrt.Assert(err == nil, "Subscribe fails")
		vrt.Quiesce()
		for _, id := range ids {
			vrt.Assume(!vrt.EqStr(id, sub.Id()))
		}
		ids = append(ids, sub.Id())
		subs = append(subs, &csub{Subscription: sub})
		x.c.frames()
	}
	var pending []*call
	for i := 0; i < vrt.Param("n", 2); i++ {
		s := strconv.Itoa(i)
		switch vrt.Choose("event"+s, 6) {
		case 0: // a message for one of them
			c := subs[vrt.Choose("sub"+s, len(subs))]
			body := vrt.Bytes("body"+s, 1+vrt.Choose("blen"+s, vrt.Param("blen", 1)))
			var more []kv
			switch vrt.Choose("more"+s, vrt.Param("mores", 3)) {
			case 2:
				more = []kv{{"content-type", plain("ct"+s, 1)}, {plain("k"+s, 1), "v"}, {"destination", "/other"}, {"content-length", strconv.Itoa(len(body))}}
			case 1:
				more = []kv{{"receipt-id", c.Id()}, {"content-length", strconv.Itoa(len(body))}}
			default:
				for _, b := range body {
					vrt.Assume(b != 0)
				}
			}
			w := x.message(c.Id(), body, more...)
			if !c.unsub {
				c.want = append(c.want, w)
			}
		case 1: // a message for nobody
			id := nobody
			if vrt.Choose("no"+s, 2) == 1 {
				id = plain("other"+s, vrt.Choose("olen"+s, 3))
				for _, o := range ids {
					vrt.Assume(!vrt.EqStr(id, o))
				}
			}
			x.message(id, []byte("?"))
			vrt.Reach("nobody")
		case 2: // a request of the program, answered later or never
			c := x.start("Send", func() error { return x.conn.Send("/q", "", nil, stomp.SendOpt.Receipt) })
			x.begun(c, "SEND")
			pending = append(pending, c)
		case 3: // Unsubscribe
			c := subs[vrt.Choose("sub"+s, len(subs))]
			if !c.Active() {
				vrt.Assert(c.Unsubscribe() == stomp.ErrCompletedSubscription, "a second Unsubscribe succeeds")
				continue
			}
			r := x.start("Unsubscribe", func() error { return c.Unsubscribe() })
			x.begun(r, "UNSUBSCRIBE")
			r.sub = c.Subscription
			vrt.Assert(vrt.EqStr(r.f.get("id"), c.Id()), "Unsubscribe names another subscription")
			pending = append(pending, r)
		case 4: // the receipt of one of them
			if len(pending) == 0 {
				continue
			}
			r := pending[vrt.Choose("req"+s, len(pending))]
			x.c.feed(enc("RECEIPT", nil, "receipt-id", r.id))
			vrt.Quiesce()
			r.ok()
			for _, c := range subs {
				if c.Subscription == r.sub {
					c.unsub = true
				}
			}
			vrt.Reach("receipt")
		case 5: // a receipt that looks like a subscription
			c := subs[vrt.Choose("sub"+s, len(subs))]
			for _, r := range pending {
				vrt.Assume(!vrt.EqStr(r.id, c.Id()))
			}
			x.c.feed(enc("RECEIPT", nil, "receipt-id", c.Id(), "subscription", c.Id()))
			vrt.Reach("alike")
		}
		vrt.Quiesce()
		for i, r := range pending {
			for _, o := range pending[:i] {
				vrt.Assert(vrt.Or(o.over, vrt.Or(r.over, !vrt.EqStr(r.id, o.id))), "two requests with the same receipt")
			}
			if !r.over {
				r.pending()
			}
		}
	}
	vrt.Assert(!x.c.down(), "the connection is closed")
	for _, c := range subs {
		vrt.Assert(len(c.C) == len(c.want), "messages are lost or reach a subscription they are not for")
		for _, w := range c.want {
			c.expect(x, w, <-c.C)
			vrt.Reach("message")
		}
		if c.unsub {
			m, ok := <-c.C
			vrt.Assert(m == nil && !ok, "the channel is not closed after Unsubscribe")
		}
	}
	x.works()
	vrt.Reach("end")
}

// SlowReader: a subscription that is not read for a while. The other direction
// and the receipt of what the program sends do not depend on it, nothing is
// lost, and everything comes in order when it is read.
func SlowReader() {
	x := newCli("1.2", []string{"heart-beat", "0,60000"}, stomp.ConnOpt.HeartBeatError(0),
		stomp.ConnOpt.ReadChannelCapacity(1+vrt.Choose("rcap", 2)), stomp.ConnOpt.WriteChannelCapacity(1))
	var subs []*csub
	for i := 0; i < 2; i++ {
		sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
		vrt.Assert(err == nil, "Subscribe fails")
		subs = append(subs, &csub{Subscription: sub})
	}
	vrt.Quiesce()
	x.c.frames()
	n := vrt.Concrete(vrt.IntRange("n", 0, vrt.Param("n", 24)))
	for i := 0; i < n; i++ {
		s := subs[0]
		s.want = append(s.want, x.message(s.Id(), []byte(strconv.Itoa(i))))
	}
	s := subs[1]
	s.want = append(s.want, x.message(s.Id(), []byte("last")))
	vrt.Quiesce()
	for i := 0; i < 3; i++ {
		c := x.start("Send", func() error { return x.conn.Send("/q", "", nil) })
		vrt.Quiesce()
		c.ok()
		vrt.Assert(len(x.c.frames()) == 1, "nothing is sent while a subscription is not read")
	}
	time.Sleep(210 * time.Second)
	vrt.Quiesce()
	vrt.Assert(len(x.c.take()) == 3, "no heart-beats while a subscription is not read")
	if n <= 16 {
		vrt.Assert(len(subs[1].C) == 1, "a subscription is blocked by one that holds few messages")
	}
	vrt.Assert(!x.c.down(), "the connection is closed")
	switch vrt.Choose("read", 2) {
	case 0: // one after the other
		for _, s := range subs {
			for _, w := range s.want {
				vrt.Quiesce()
				vrt.Assert(len(s.C) > 0, "a message does not arrive although the subscriptions are read")
				s.expect(x, w, <-s.C)
			}
		}
	case 1: // by go-routines
		done := 0
		for _, s := range subs {
			s := s
			go func() {
				for _, w := range s.want {
					s.expect(x, w, <-s.C)
				}
				done++
			}()
		}
		vrt.Quiesce()
		vrt.Assert(done == 2, "a message does not arrive although the subscriptions are read")
	}
	for _, s := range subs {
		vrt.Assert(len(s.C) == 0, "a message that was not sent")
	}
	vrt.Reach("end")
}

// Chatty: consumers that send frames for every message they get, so many that
// every channel inside the client is full at times.
func Chatty() {
	vrt.Delays(0)
	x := newCli("1.1", nil, stomp.ConnOpt.ReadChannelCapacity(1), stomp.ConnOpt.WriteChannelCapacity(1))
	k := 1 + vrt.Choose("consumers", 2)
	n, per := vrt.Param("n", 20), vrt.Param("per", 2)
	var subs []*csub
	for i := 0; i < k; i++ {
		sub, err := x.conn.Subscribe("/d", stomp.AckClientIndividual)
		vrt.Assert(err == nil, "Subscribe fails")
		subs = append(subs, &csub{Subscription: sub})
	}
	vrt.Quiesce()
	x.c.frames()
	for i := 0; i < n; i++ {
		s := subs[i%k]
		s.want = append(s.want, x.message(s.Id(), []byte(strconv.Itoa(i))))
	}
	vrt.Delays(-1)
	done := 0
	for _, s := range subs {
		s := s
		go func() {
			for _, w := range s.want {
				m := <-s.C
				s.expect(x, w, m)
				for j := 0; j < per; j++ {
					vrt.Assert(x.conn.Ack(m) == nil, "Ack fails")
				}
			}
			done++
		}()
	}
	vrt.Quiesce()
	vrt.Assert(done == k, "the client dead-locks when the consumers of messages send frames")
	vrt.Assert(len(x.c.frames()) == n*per, "frames are lost")
	vrt.Reach("end")
}
