package vh

import (
	"strconv"

	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C17, C18, C19: everything at the same time, under every schedule
// ---------------------------------------------------------------------------

// a delivery, as seen on the wire
type delivery struct {
	p     *peer
	sub   string
	ackID string // "" for ack:auto
	msgID string
	m     *qmsg
	acked bool
	final bool
}

// deliveries returns the MESSAGE frames p has received since the last call;
// every one is checked to be a message that was sent.
func (p *peer) deliveries() []*delivery {
	var ds []*delivery
	for _, f := range p.c.frames() {
		switch f.cmd {
		case "RECEIPT":
			p.rcpt = append(p.rcpt, f.get("receipt-id"))
			continue
		case "ERROR":
			p.errs++
			continue
		}
		vrt.Assert(f.cmd == "MESSAGE", "unexpected "+f.cmd+" frame from the server")
		d := &delivery{p: p, sub: f.get("subscription"), ackID: f.get("ack"), msgID: f.get("message-id")}
		vrt.Assert(len(f.body) == 2, "a MESSAGE body that nobody sent")
		for _, m := range p.w.msgs {
			if m.tag == f.body[0] {
				d.m = m
			}
		}
		vrt.Assert(d.m != nil && vrt.EqBytes(d.m.body, f.body), "a MESSAGE body that nobody sent")
		vrt.Assert(vrt.EqStr(f.get("destination"), p.w.dests[d.m.dest]), "a MESSAGE of another destination")
		known := false
		for _, s := range p.subs {
			if s.id == d.sub {
				known = true
				vrt.Assert(s.dest == d.m.dest, "a message reached a subscription to another destination")
			}
		}
		vrt.Assert(known, "a MESSAGE for a subscription that never existed")
		for _, x := range p.ids {
			vrt.Assert(x != d.msgID, "a message-id is used twice on one connection")
		}
		p.ids = append(p.ids, d.msgID)
		d.final = d.ackID == ""
		ds = append(ds, d)
	}
	return ds
}

// ackRaw sends ACK or NACK for d.
func (d *delivery) ackRaw(cmd string) {
	if d.p.ver == "1.2" {
		d.p.feed(cmd, nil, "id", d.ackID)
	} else {
		d.p.feed(cmd, nil, "message-id", d.msgID, "subscription", d.sub)
	}
}

const (
	aNothing = iota
	aHangup
	aUnsub
	aDisconnect
	aResub
	aAck
	aAckUnsub
	aAckHangup
	aNack
	aBreak
	aError
	aCount
)

// QueueRace: a publisher sends while two consumers that already hold messages
// (or wait for one) acknowledge, unsubscribe or go away, all at once.
func QueueRace() {
	vrt.Delays(0)
	w := newWorld(nil)
	w.dests = []string{"/queue/q"}
	pub := w.connect("p", "1.2")
	cons := []*peer{w.connect("a", "1.2"), w.connect("b", "1.1")}[:vrt.Param("consumers", 2)]
	pre := vrt.Param("pre", 1)
	held := map[*peer]*delivery{}
	var all []*delivery
	for i, p := range cons {
		p.subscribe("s", 0, ackModes[vrt.Choose("mode"+strconv.Itoa(i), vrt.Param("modes", 2))])
		vrt.Quiesce()
	}
	for i := 0; i < pre; i++ {
		m := w.newMsg(pub, 0)
		pub.sendFrame(m)
		vrt.Quiesce()
	}
	collect := func() int {
		n := 0
		for _, p := range w.peers {
			ds := p.deliveries()
			for _, d := range ds {
				if d.ackID != "" {
					held[p] = d
				}
			}
			all = append(all, ds...)
			n += len(ds)
		}
		return n
	}
	collect()
	requeues := false
	var acts []int
	for i := range cons {
		acts = append(acts, vrt.Choose("act"+strconv.Itoa(i), aCount))
	}
	// -- the burst --
	vrt.Delays(-1)
	for i := 0; i < vrt.Param("n", 2); i++ {
		m := w.newMsg(pub, 0)
		pub.sendFrame(m)
	}
	for i, p := range cons {
		h := held[p]
		switch acts[i] {
		case aHangup:
			p.gone = true
			p.c.hangup()
		case aUnsub:
			p.subs[0].active = false
			p.feed("UNSUBSCRIBE", nil, "id", "s")
		case aDisconnect:
			p.gone = true
			p.feed("DISCONNECT", nil)
			p.c.hangup()
		case aResub:
			p.subs[0].active = false
			p.feed("UNSUBSCRIBE", nil, "id", "s")
			p.subscribe("s", 0, "auto")
		case aAck, aAckUnsub, aAckHangup:
			if h == nil {
				continue
			}
			h.ackRaw("ACK")
			h.acked, h.final = true, true
			delete(held, p)
			if acts[i] == aAckUnsub {
				p.subs[0].active = false
				p.feed("UNSUBSCRIBE", nil, "id", "s")
			} else if acts[i] == aAckHangup {
				p.gone = true
				p.c.hangup()
			}
		case aNack:
			if h == nil {
				continue
			}
			h.ackRaw("NACK")
			delete(held, p)
		case aBreak:
			// the connection accepts 20 more bytes, then fails
			p.c.mu.Lock()
			p.c.wleft = 20
			p.c.mu.Unlock()
			requeues = true
			continue
		case aError:
			p.gone = true
			p.feed("CONNECT", nil)
		}
		if acts[i] != aNothing && acts[i] != aAck {
			requeues = true
		}
	}
	vrt.Quiesce()
	vrt.Delays(0)
	// -- acknowledge whatever arrives, until nothing moves any more --
	for round := 0; ; round++ {
		vrt.Assert(round < 12, "messages are delivered again and again")
		collect()
		// what is undelivered now has no subscription that could take it
		for _, m := range w.msgs {
			out := false
			for _, d := range all {
				if d.m == m && (d.final || held[d.p] == d && !d.p.c.down() || d.p.subs[0].active == false && !d.p.c.down()) {
					out = true
				}
			}
			if out {
				continue
			}
			for _, p := range cons {
				for _, s := range p.subs {
					if s.active && !p.c.down() && (held[p] == nil || s.ack == "auto") {
						vrt.Assert(false, "a message stays in its queue although a subscription is ready (lost or stuck)")
					}
				}
			}
		}
		n := 0
		for i, p := range cons {
			if h := held[p]; h != nil && !p.gone && p.subs[0].active && !p.c.down() && acts[i] != aBreak {
				h.ackRaw("ACK")
				h.acked, h.final = true, true
				delete(held, p)
				n++
				vrt.Quiesce()
			}
		}
		if n == 0 {
			break
		}
	}
	if !requeues {
		for _, p := range w.peers {
			last := -1
			for _, d := range all {
				if d.p == p {
					vrt.Assert(int(d.m.tag) > last, "the messages of one queue are delivered out of order")
					last = int(d.m.tag)
				}
			}
		}
	}
	for i, p := range cons {
		vrt.Assert(!p.gone || p.c.down(), "the server keeps a connection whose client is gone")
		if acts[i] != aError {
			vrt.Assert(p.errs == 0, "an ERROR frame although nothing was wrong")
		}
		if !p.gone {
			p.c.hangup()
		}
	}
	pub.c.hangup()
	vrt.Quiesce()
	drain := w.connect("drain", "1.2")
	drain.subscribe("s", 0, "auto")
	vrt.Quiesce()
	collect()
	for _, m := range w.msgs {
		n := 0
		for _, d := range all {
			if d.m == m && d.final {
				n++
			}
		}
		vrt.Assert(n > 0, "a message was lost")
		vrt.Assert(n == 1, "a message was delivered again after it was acknowledged")
	}
	for _, p := range w.peers[:len(w.peers)-1] {
		vrt.Assert(p.c.down(), "the server keeps a connection whose client is gone")
	}
	vrt.Reach("end")
}

// TopicRace: publishers send while subscribers come and go, all at once.
func TopicRace() {
	vrt.Delays(0)
	w := newWorld(nil)
	w.dests = []string{"/topic/t"}
	var pubs, subs []*peer
	for i := 0; i < vrt.Param("pubs", 2); i++ {
		pubs = append(pubs, w.connect("p"+strconv.Itoa(i), "1.2"))
	}
	ids := []string{"s", "t", "s"} // of the subscriptions
	act := make([]int, vrt.Param("subs", 3))
	for i := range act {
		p := w.connect("s"+strconv.Itoa(i), "1.1")
		subs = append(subs, p)
		if i > 0 {
			act[i] = 1 + vrt.Choose("act"+strconv.Itoa(i), 6)
		}
		if act[i] != 1 && act[i] != 2 {
			p.subscribe(ids[i], 0, "")
			vrt.Quiesce()
		}
	}
	vrt.Delays(-1)
	for _, p := range pubs {
		for i := 0; i < vrt.Param("n", 2); i++ {
			p.sendFrame(w.newMsg(p, 0))
		}
	}
	for i, p := range subs {
		switch act[i] {
		case 1:
			p.subscribe(ids[i], 0, "client")
		case 2:
			p.subscribe(ids[i], 0, "")
			p.feed("UNSUBSCRIBE", nil, "id", ids[i])
		case 3:
			p.feed("UNSUBSCRIBE", nil, "id", ids[i], "receipt", "u")
		case 4:
			p.c.hangup()
			p.gone = true
		case 5:
			p.feed("DISCONNECT", nil, "receipt", "d")
		case 6:
			p.feed("SUBSCRIBE", nil, "id", ids[i], "destination", "/topic/t") // the id is in use: an ERROR
			p.gone = true
		}
	}
	vrt.Quiesce()
	vrt.Delays(0)
	var order []*qmsg // the order seen by the first subscriber
	for i, p := range subs {
		ds := p.deliveries()
		if i == 0 {
			for _, d := range ds {
				order = append(order, d.m)
			}
			vrt.Assert(len(order) == len(w.msgs), "a topic message was lost, or delivered twice")
			for j, m := range order {
				for _, x := range order[:j] {
					vrt.Assert(x != m, "a topic message was delivered twice")
					vrt.Assert(x.by != m.by || x.tag < m.tag, "the messages of one publisher are delivered out of order")
				}
			}
			continue
		}
		// a contiguous part of it
		from := 0
		if len(ds) > 0 {
			for from < len(order) && order[from] != ds[0].m {
				from++
			}
		}
		for j, d := range ds {
			vrt.Assert(from+j < len(order) && order[from+j] == d.m, "subscribers see the messages of a topic in different order, or with gaps")
		}
		switch act[i] {
		case 1:
			vrt.Assert(len(ds) == 0 || from+len(ds) == len(order), "a subscription misses later messages of its topic")
		case 3, 4, 5, 6:
			vrt.Assert(len(ds) == 0 || from == 0, "a subscription misses messages sent before it ended")
		}
		vrt.Assert(!p.gone || p.c.down(), "the server keeps a connection whose client is gone")
		vrt.Assert((p.errs > 0) == (act[i] == 6), "an ERROR frame although nothing was wrong, or none for a wrong frame")
		if act[i] == 3 || act[i] == 5 {
			vrt.Assert(len(p.rcpt) == 1, "no RECEIPT")
		}
	}
	// the topic still works
	m := w.newMsg(pubs[0], 0)
	pubs[0].sendFrame(m)
	vrt.Quiesce()
	for i, p := range subs {
		ds := p.deliveries()
		if act[i] <= 1 {
			vrt.Assert(len(ds) == 1 && ds[0].m == m, "a topic message did not reach a subscription")
		} else {
			vrt.Assert(len(ds) == 0, "a topic message reached a subscription that has ended")
		}
	}
	vrt.Reach("end")
}

// AckAny: a client with two subscriptions, each with an unacknowledged
// message, sends an ACK or NACK with an arbitrary id.
func AckAny() {
	w := newWorld(nil)
	w.dests = []string{"/queue/q", "/queue/r"}
	pub := w.connect("p", "1.2")
	a := w.connect("a", []string{"1.2", "1.1"}[vrt.Choose("ver", 2)])
	b := w.connect("b", "1.2")
	mode := ackModes[1+vrt.Choose("mode", 2)]
	order := vrt.Choose("order", 2)
	for i := 0; i < 2; i++ {
		a.subscribe("s"+strconv.Itoa(i), i, mode)
		w.settle()
	}
	for i := 0; i < vrt.Param("skip", 0); i++ {
		// the message-ids get longer
		m := pub.send(0)
		w.settle()
		a.ack(m)
		w.settle()
	}
	m0 := pub.send(order)
	w.settle()
	m1 := pub.send(1 - order)
	w.settle()
	vrt.Assert(m0.state == mOut && m1.state == mOut, "messages are not delivered")
	// b holds a message as well, with a message-id that a does not have
	b.subscribe("s0", 0, mode)
	w.settle()
	m2 := pub.send(0)
	w.settle()
	id := vrt.String("id", vrt.Param("n", 1))
	cmd := []string{"ACK", "NACK"}[vrt.Choose("cmd", 2)]
	if len(id) > 0 {
		vrt.Assume(id[0] != '0')
	}
	// a 1.1 client names the subscription, too: the right one, if any
	var hit *qmsg
	for _, m := range []*qmsg{m0, m1} {
		x := m.ackID
		if a.ver == "1.1" {
			x = m.msgID
		}
		if vrt.EqStr(x, id) {
			hit = m
		}
	}
	if a.ver == "1.2" {
		a.feed(cmd, nil, "id", id)
	} else {
		sub := m0.sub.id
		if hit != nil {
			sub = hit.sub.id
		}
		hs := []string{"message-id", id, "subscription", sub}
		more := 0
		if vrt.Param("skip", 0) == 0 {
			more = vrt.Choose("more", 3)
		}
		switch more {
		case 1:
			// means nothing before STOMP 1.2
			hs = append(hs, "id", m0.msgID)
		case 2:
			hs = append([]string{"id", m1.msgID}, hs...)
		}
		a.feed(cmd, nil, hs...)
	}
	if hit != nil {
		vrt.Reach("hit")
		hit.sub.drop(hit)
		if cmd == "ACK" {
			hit.state = mSettled
		} else {
			w.requeue(hit)
			w.front--
		}
		w.settle()
	} else {
		// a wrong id is an error or ignored; it settles nothing
		vrt.Reach("miss")
		vrt.Quiesce()
		if a.c.down() {
			a.gone = true
			for _, s := range a.subs {
				s.active = false
				s.out = nil
			}
			w.requeue(m0)
			w.requeue(m1)
			w.front--
		}
		w.settle()
	}
	vrt.Assert(m2.state == mOut, "an acknowledgement settles a message of another client")
	w.drain()
	for _, m := range []*qmsg{m0, m1, m2} {
		if m == hit && cmd == "ACK" {
			vrt.Assert(m.times == 1, "an acknowledged message is delivered again")
		} else {
			vrt.Assert(m.times >= 2, "a message that was not acknowledged is not delivered again")
		}
	}
	vrt.Reach("end")
}
