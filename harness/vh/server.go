package vh

import (
	"strconv"

	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
)

// ---------------------------------------------------------------------------
// a server with clients, driven over in-memory connections
// ---------------------------------------------------------------------------

type world struct {
	l     *flistener
	peers []*peer
	msgs  []*qmsg
	dests []string
	rank  int // next rank of a new message
	front int // next rank of a requeued one, decreasing
	steps int
	extra bool // SEND frames carry an extra arbitrary header
	more  int  // and so many other headers
	loose bool // no order is expected and messages may wait
}

type peer struct {
	w    *world
	name string
	c    *fconn
	ver  string
	gone bool
	subs []*hsub
	ids  []string // message-ids seen on this connection
	errs int
	rcpt []string
	nfr  int     // MESSAGE frames received
	step []*qmsg // what it received in this step

	receipts bool
	wantR    []string // receipts it waits for
}

type hsub struct {
	p      *peer
	id     string
	dest   int
	ack    string // "", "auto", "client", "client-individual"
	active bool
	out    []*qmsg // delivered and not settled
	last   *qmsg   // last topic message
}

const (
	mQueued  = iota // in the queue
	mOut            // delivered, waiting for an acknowledgement
	mLimbo          // delivered and unacknowledged, its subscription is gone
	mSettled        // acknowledged (or delivered with ack:auto)
	mTx             // sent in a transaction that is still open
	mNever          // its transaction was aborted
)

type qmsg struct {
	tag   byte
	dest  int
	body  []byte
	hs    []kv
	rank  int
	state int
	sub   *hsub
	ackID string // what acknowledges it
	msgID string
	by    *peer
	topic bool
	want  []*hsub // topic: the subscriptions that must still get it
	times int     // deliveries
	step  int     // the step of the last one
}

func newWorld(srv *server.Server) *world {
	w := &world{l: newFlistener()}
	if srv == nil {
		srv = &server.Server{}
	}
	srv.Log = nullLog{}
	go srv.Serve(w.l)
	return w
}

// word is an arbitrary text of n lower-case letters.
func word(name string, n int) string {
	s := vrt.String(name, n)
	for i := 0; i < n; i++ {
		vrt.Assume(vrt.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}

// queues picks n different destinations below prefix.
func (w *world) destinations(prefix string, n int) {
	for i := 0; i < n; i++ {
		d := prefix + word("dest"+strconv.Itoa(len(w.dests)), 1)
		for _, o := range w.dests {
			if len(o) == len(d) {
				vrt.Assume(!vrt.EqStr(o, d))
			}
		}
		w.dests = append(w.dests, d)
	}
}

func (w *world) dial(name string) *peer {
	p := &peer{w: w, name: name, c: newFconn(name)}
	w.l.conns <- p.c
	w.peers = append(w.peers, p)
	return p
}

func (w *world) connect(name, ver string) *peer {
	p := w.dial(name)
	p.ver = ver
	p.c.feed(enc("CONNECT", nil, "accept-version", ver, "host", "h"))
	vrt.Quiesce()
	fs := p.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "CONNECT is not answered with CONNECTED")
	vrt.Assert(fs[0].get("version") == ver, "CONNECTED has the wrong version")
	return p
}

func (p *peer) feed(cmd string, body []byte, hs ...string) {
	if p.receipts {
		// every frame asks for a receipt
		r := "r" + strconv.Itoa(len(p.wantR))
		p.wantR = append(p.wantR, r)
		hs = append(hs, "receipt", r)
	}
	p.c.feed(enc(cmd, body, hs...))
}

// ---- operations; every one is followed by settle ----

// send publishes a message with one identifying byte and one arbitrary one.
func (p *peer) send(dest int, more ...string) *qmsg {
	w := p.w
	m := w.newMsg(p, dest)
	w.publish(m)
	p.sendFrame(m, more...)
	return m
}

// publish: from now on the message counts as sent to its destination.
func (w *world) publish(m *qmsg) {
	m.rank = w.rank
	w.rank++
	m.state = mQueued
	if m.topic {
		for _, p := range w.peers {
			for _, s := range p.subs {
				if s.active && s.dest == m.dest {
					m.want = append(m.want, s)
				}
			}
		}
	}
}

func (p *peer) sendFrame(m *qmsg, more ...string) {
	hs := []string{"destination", p.w.dests[m.dest], "content-length", strconv.Itoa(len(m.body))}
	for _, h := range m.hs {
		hs = append(hs, h.k, h.v)
	}
	p.feed("SEND", m.body, append(hs, more...)...)
}

func (w *world) newMsg(p *peer, dest int) *qmsg {
	n := strconv.Itoa(len(w.msgs))
	m := &qmsg{tag: byte(len(w.msgs) + 1), dest: dest, by: p, topic: !isQueue(w.dests[dest]), state: mTx}
	m.body = []byte{m.tag, vrt.Byte("b" + n)}
	if w.extra {
		k := vrt.String("xk"+n, 1)
		m.hs = append(m.hs, kv{k, vrt.String("xv"+n, 1)})
	}
	for i := 0; i < w.more; i++ {
		m.hs = append(m.hs, kv{"h" + strconv.Itoa(i), "v" + n})
	}
	w.msgs = append(w.msgs, m)
	return m
}

func isQueue(dest string) bool { return len(dest) >= 6 && dest[:6] == "/queue" }

func (p *peer) subscribe(id string, dest int, ack string) *hsub {
	s := &hsub{p: p, id: id, dest: dest, ack: ack, active: true}
	p.subs = append(p.subs, s)
	if ack == "" {
		p.feed("SUBSCRIBE", nil, "id", id, "destination", p.w.dests[dest])
		s.ack = "auto"
	} else {
		p.feed("SUBSCRIBE", nil, "id", id, "destination", p.w.dests[dest], "ack", ack)
	}
	return s
}

func (p *peer) unsubscribe(s *hsub) {
	s.active = false
	for _, m := range s.out {
		m.state = mLimbo
	}
	s.out = nil
	p.feed("UNSUBSCRIBE", nil, "id", s.id)
}

func (p *peer) ackFrame(cmd string, m *qmsg, more ...string) {
	var hs []string
	if p.ver == "1.2" {
		hs = []string{"id", m.ackID}
	} else {
		hs = []string{"message-id", m.msgID, "subscription", m.sub.id}
	}
	p.feed(cmd, nil, append(hs, more...)...)
}

func (p *peer) ack(m *qmsg) {
	p.ackFrame("ACK", m)
	s := m.sub
	if s.ack == "client" {
		// cumulative: everything delivered to this subscription before m, too
		for len(s.out) > 0 {
			x := s.out[0]
			s.out = s.out[1:]
			x.state = mSettled
			if x == m {
				break
			}
		}
	} else {
		s.drop(m)
	}
	m.state = mSettled
}

func (s *hsub) drop(m *qmsg) {
	for i, x := range s.out {
		if x == m {
			s.out = append(append([]*qmsg(nil), s.out[:i]...), s.out[i+1:]...)
			return
		}
	}
}

func (p *peer) nack(m *qmsg) {
	p.ackFrame("NACK", m)
	m.sub.drop(m)
	p.w.requeue(m)
	p.w.front--
}

func (w *world) requeue(m *qmsg) {
	m.state = mQueued
	m.rank = w.front - 1
}

// leave ends a connection; how: 0 hang-up, 1 DISCONNECT with a receipt and a
// hang-up, 2 hang-up in the middle of a frame, 3 a protocol error.
func (p *peer) leave(how int) {
	switch how {
	case 1:
		p.feed("DISCONNECT", nil, "receipt", "bye")
		vrt.Quiesce()
		p.receive()
		p.c.hangup()
	case 2:
		p.c.feed([]byte("SEND\ndestination:" + p.w.dests[0] + "\n\nx"))
		p.c.hangup()
	case 3:
		p.feed("CONNECT", nil, "accept-version", "1.2")
	default:
		p.c.hangup()
	}
	p.gone = true
	for _, s := range p.subs {
		s.active = false
		s.out = nil
	}
	for _, m := range p.w.msgs {
		if (m.state == mOut || m.state == mLimbo) && m.sub.p == p {
			p.w.requeue(m)
		}
		if m.state == mTx && m.by == p {
			m.state = mNever
		}
	}
	p.w.front--
}

// ---- the monitor ----

// settle waits until nothing moves any more and checks everything the clients
// received and what is left in the queues.
func (w *world) settle() {
	vrt.Quiesce()
	w.steps++
	for _, p := range w.peers {
		p.receive()
	}
	w.checkOrder()
	w.checkProgress()
	w.checkReceipts()
}

func (w *world) checkReceipts() {
	for _, p := range w.peers {
		if p.receipts && !p.gone {
			vrt.Assert(len(p.rcpt) == len(p.wantR), "not exactly one RECEIPT for every frame that asked for one")
			for i := range p.rcpt {
				vrt.Assert(p.rcpt[i] == p.wantR[i], "wrong receipt-id, or RECEIPT frames out of order")
			}
		}
	}
}

var reserved = []string{"destination", "content-length", "subscription", "message-id", "id", "ack"}

func isReserved(k string) bool {
	for _, r := range reserved {
		if vrt.EqStr(k, r) {
			return true
		}
	}
	return false
}

func (p *peer) receive() {
	for _, f := range p.c.frames() {
		switch f.cmd {
		case "MESSAGE":
			p.message(f)
		case "RECEIPT":
			p.rcpt = append(p.rcpt, f.get("receipt-id"))
		case "ERROR":
			p.errs++
			vrt.Assert(p.gone, "an ERROR frame although nothing was wrong")
		default:
			vrt.Assert(false, "unexpected "+f.cmd+" frame from the server")
		}
	}
}

func (p *peer) message(f wframe) {
	w := p.w
	p.nfr++
	var s *hsub
	for _, x := range p.subs {
		if x.active && vrt.EqStr(x.id, f.get("subscription")) {
			s = x
		}
	}
	if s == nil {
		vrt.Assert(p.gone, "a MESSAGE for a subscription that does not exist")
		return
	}
	vrt.Assert(vrt.EqStr(f.get("destination"), w.dests[s.dest]), "a MESSAGE of another destination than the subscription's")
	vrt.Assert(len(f.body) == 2, "a MESSAGE body that nobody sent")
	var m *qmsg
	for _, x := range w.msgs {
		if x.tag == f.body[0] {
			m = x
		}
	}
	vrt.Assert(m != nil, "a MESSAGE body that nobody sent")
	vrt.Assert(vrt.EqBytes(f.body, m.body), "a MESSAGE body differs from the one sent")
	vrt.Assert(m.dest == s.dest, "a message reached a subscription to another destination")
	for _, h := range m.hs {
		if isReserved(h.k) {
			continue
		}
		n := 0
		for _, g := range f.hs {
			if g == h {
				n++
			}
		}
		vrt.Assert(n == 1, "a header of the message is lost, changed or repeated")
	}
	vrt.Assert(len(f.hs) <= len(m.hs)+6, "a MESSAGE has headers nobody set")
	for _, k := range reserved[:4] {
		n := 0
		for _, g := range f.hs {
			if vrt.EqStr(g.k, k) {
				n++
			}
		}
		vrt.Assert(n == 1, "a MESSAGE without exactly one "+k+" header")
	}
	id := f.get("message-id")
	vrt.Assert(id != "", "a MESSAGE without message-id")
	for _, x := range p.ids {
		vrt.Assert(x != id, "a message-id is used twice on one connection")
	}
	p.ids = append(p.ids, id)
	vrt.Assert(m.state != mTx, "a message of an uncommitted transaction was delivered")
	vrt.Assert(m.state != mNever, "a message of an aborted transaction was delivered")
	if m.topic {
		found := -1
		for i, x := range m.want {
			if x == s {
				found = i
			}
		}
		vrt.Assert(found >= 0, "a topic message reached a subscription twice, or one that did not exist when it was sent")
		m.want = append(append([]*hsub(nil), m.want[:found]...), m.want[found+1:]...)
		vrt.Assert(!f.has("ack"), "an ack header on a topic message")
		vrt.Assert(s.last == nil || s.last.rank < m.rank, "topic messages delivered out of order")
		s.last = m
		m.times++
		return
	}
	vrt.Assert(m.state == mQueued || m.state == mLimbo, []string{"", "a message delivered twice: it is still waiting for its acknowledgement", "", "a message delivered again after it was acknowledged"}[m.state])
	m.times++
	m.msgID = id
	m.sub = s
	if s.ack == "auto" {
		vrt.Assert(!f.has("ack"), "an ack header for a subscription with ack:auto")
		m.state = mSettled
	} else {
		m.ackID = f.get("ack")
		vrt.Assert(m.ackID != "", "no ack header for a subscription that acknowledges")
		m.state = mOut
		s.out = append(s.out, m)
	}
	p.inOrder(m)
}

// inOrder: within one step a connection gets the messages of one queue in
// queue order.
func (p *peer) inOrder(m *qmsg) {
	m.step = p.w.steps
	if p.w.loose {
		return
	}
	for _, x := range p.step {
		vrt.Assert(x.dest != m.dest || x.rank <= m.rank, "the messages of one queue are delivered out of order")
	}
	p.step = append(p.step, m)
}

// checkOrder: nothing that is still in a queue was overtaken in this step.
func (w *world) checkOrder() {
	for _, m := range w.msgs {
		if m.state != mQueued || m.topic || w.loose {
			continue
		}
		for _, x := range w.msgs {
			if x.dest == m.dest && x.rank > m.rank && x.step == w.steps {
				vrt.Assert(false, "a message overtook an earlier one of its queue")
			}
		}
	}
	for _, p := range w.peers {
		p.step = nil
		vrt.Assert(!p.gone || p.c.down(), "the server keeps a connection whose client is gone")
	}
}

// checkProgress: no message waits while a subscription could take it.
func (w *world) checkProgress() {
	for _, m := range w.msgs {
		if m.topic {
			for _, s := range m.want {
				vrt.Assert(s.p.gone, "a topic message did not reach a subscription")
			}
			m.want = nil
			continue
		}
		if m.state != mQueued || w.loose {
			continue
		}
		for _, p := range w.peers {
			for _, s := range p.subs {
				if s.active && s.dest == m.dest && len(s.out) == 0 {
					vrt.Assert(false, "a message stays in its queue although a subscription is ready (lost or stuck)")
				}
			}
		}
	}
}

// drain ends all connections and lets a new client collect what is left:
// every message that was not acknowledged, once.
func (w *world) drain() {
	for _, p := range w.peers {
		if !p.gone {
			p.leave(0)
			w.settle()
		}
	}
	p := w.connect("drain", "1.2")
	for i := range w.dests {
		p.subscribe("s"+strconv.Itoa(i), i, "")
		w.settle()
	}
	for _, m := range w.msgs {
		vrt.Assert(m.topic || m.state == mSettled || m.state == mNever || m.state == mTx, "a message was lost")
	}
}

// ---------------------------------------------------------------------------
// C17, C18: histories of queue operations
// ---------------------------------------------------------------------------

var ackModes = []string{"auto", "client-individual", "client", ""}

// QueueHistory: two consumers and a publisher on one or two queues, any
// history of n operations, each followed by quiescence.
func QueueHistory() {
	nd := vrt.Param("dests", 1)
	n := vrt.Param("n", 4)
	w := newWorld(nil)
	w.destinations("/queue/", nd)
	pub := w.connect("p", "1.1")
	vers := []string{"1.2", "1.1"}
	v := vrt.Choose("ver", 2)
	a := w.connect("a", vers[v])
	b := w.connect("b", vers[1-v])
	cons := []*peer{a, b}[:vrt.Param("consumers", 2)]
	for i, p := range cons {
		for k := 0; k < vrt.Param("pre", 1); k++ {
			// subscriptions there are from the start
			p.subscribe("i"+strconv.Itoa(k), vrt.Choose("pdest", nd), ackModes[vrt.Choose("pmode"+strconv.Itoa(i), vrt.Param("modes", 3))])
			w.settle()
		}
	}
	for i := 0; i < vrt.Param("presend", 0); i++ {
		pub.send(vrt.Choose("sdest", nd))
		w.settle()
	}
	for i := 0; i < n; i++ {
		type op struct {
			kind int
			p    *peer
			s    *hsub
			m    *qmsg
			d    int
		}
		var ops []op
		for d := 0; d < nd; d++ {
			ops = append(ops, op{kind: 0, d: d})
		}
		for _, p := range cons {
			if p.gone {
				continue
			}
			nact := 0
			for _, s := range p.subs {
				if s.active {
					nact++
					ops = append(ops, op{kind: 2, p: p, s: s})
				}
			}
			if nact < vrt.Param("subs", 1) {
				ops = append(ops, op{kind: 1, p: p})
			}
			for _, m := range w.msgs {
				if (m.state == mOut || m.state == mLimbo) && m.sub.p == p {
					ops = append(ops, op{kind: 3, p: p, m: m}, op{kind: 4, p: p, m: m})
				}
			}
			ops = append(ops, op{kind: 5, p: p})
		}
		o := ops[vrt.Choose("op"+strconv.Itoa(i), len(ops))]
		switch o.kind {
		case 0:
			pub.send(o.d)
			vrt.Reach("send")
		case 1:
			// the id of a subscription that is gone is used again
			id := "i0"
			for _, s := range o.p.subs {
				if s.active && s.id == id {
					id = "i1"
				}
			}
			o.p.subscribe(id, vrt.Choose("odest", nd), ackModes[vrt.Choose("omode", vrt.Param("modes", 3))])
			vrt.Reach("subscribe")
		case 2:
			o.p.unsubscribe(o.s)
			vrt.Reach("unsubscribe")
		case 3:
			o.p.ack(o.m)
			vrt.Reach("ack")
		case 4:
			o.p.nack(o.m)
			vrt.Reach("nack")
		case 5:
			o.p.leave(vrt.Choose("how", vrt.Param("hows", 1)))
			vrt.Reach("leave")
		}
		w.settle()
	}
	w.drain()
	vrt.Reach("end")
}
