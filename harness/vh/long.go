package vh

import (
	"bytes"
	"io"
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// sizes and numbers beyond every buffer: few arbitrary bytes, many fixed ones
// ---------------------------------------------------------------------------

// filled is a text of n fixed bytes.
func filled(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	return b
}

// long is a text of n bytes with an arbitrary one at the beginning, in the
// middle or at the end.
func long(name string, n int) []byte {
	b := filled(n)
	if n > 0 {
		b[[]int{0, n / 2, n - 1}[vrt.Choose(name+".at", 3)]] = vrt.Bytes(name, 1)[0]
	}
	return b
}

// FrameBig: a frame with many headers, long headers or a long body, through
// Writer and Reader.
func FrameBig() {
	nh, vl, bl := 1, 1, 1
	switch vrt.Choose("big", 6) {
	case 0:
		nh = 40
	case 1:
		nh = 400
	case 2:
		vl = 700
	case 3:
		vl = 9000
	case 4:
		bl = 5000
	case 5:
		bl = vrt.Param("blen", 40000)
	}
	key, val, body := filled(vl), filled(vl), filled(bl)
	switch vrt.Choose("where", 3) {
	case 0:
		key = long("k", vl)
	case 1:
		val = long("v", vl)
	case 2:
		body = long("b", bl)
	}
	f := frame.New("MESSAGE")
	var hs []kv
	add := func(k, v string) {
		f.Header.Add(k, v)
		hs = append(hs, kv{k, v})
	}
	for i := 0; i < nh; i++ {
		k := "h" + strconv.Itoa(i)
		if i == nh-1 {
			k = string(key)
		}
		add(k, "v"+strconv.Itoa(i))
	}
	add("last", string(val))
	if vrt.Choose("cl", 2) == 1 {
		add("content-length", strconv.Itoa(bl))
	} else {
		for _, i := range []int{0, bl / 2, bl - 1} {
			vrt.Assume(body[i] != 0)
		}
	}
	f.Body = body
	want := refEncode(f.Command, hs, body)
	var buf bytes.Buffer
	small := vrt.Choose("small", 2)
	vrt.Assert(frame.NewWriterSize(&buf, []int{4096, 16}[small]).Write(f) == nil, "Writer.Write: error")
	vrt.Assert(vrt.EqBytes(buf.Bytes(), want), "Writer.Write: wrong bytes")
	data := append(buf.Bytes(), refEncode("ACK", []kv{{"id", "1"}}, nil)...)
	rd := frame.NewReaderSize(&fixedChunks{data: data, size: []int{1 << 20, 1000}[small]}, []int{4096, 16}[small])
	g, err := rd.Read()
	vrt.Assert(err == nil && g != nil, "round trip: Reader.Read fails on a written frame")
	vrt.Assert(g.Command == f.Command && sameHeaders(headersOf(g), hs), "round trip: headers differ")
	vrt.Assert(vrt.EqBytes(g.Body, body), "round trip: body differs")
	g, err = rd.Read()
	vrt.Assert(err == nil && g != nil && g.Command == "ACK" && g.Header.Get("id") == "1" && g.Header.Len() == 1, "round trip: the frame behind a big one is not read")
	g, err = rd.Read()
	vrt.Assert(err == io.EOF && g == nil, "round trip: bytes are left over after the frame")
	vrt.Reach("end")
}

// one is the variant a parameter names, or any.
func one(name string, n int) int {
	if k := vrt.Param(name, -1); k >= 0 {
		return k
	}
	return vrt.Choose(name, n)
}

// two is a body that tells which of many it is.
func two(i int, more ...byte) []byte { return append([]byte{byte(i), byte(i >> 8)}, more...) }

// longPeer reads MESSAGE frames in bulk.
func (p *peer) bulk() []wframe {
	vrt.Quiesce()
	fs := p.c.frames()
	for _, f := range fs {
		vrt.Assert(f.cmd == "MESSAGE" || f.cmd == "RECEIPT", "unexpected "+f.cmd)
	}
	vrt.Assert(!p.c.down(), "a connection is closed")
	return fs
}

// feedAll feeds many frames.
func (p *peer) feedAll(n int, f func(i int) []byte) {
	for i := 0; i < n; i++ {
		p.c.feed(f(i))
		if i%16 == 15 {
			vrt.Quiesce()
		}
	}
	vrt.Quiesce()
}

// QueueLong: many messages wait in a queue; consumers take them one after the
// other, return some, and a last one gets what is left.
func QueueLong() {
	w := newWorld(nil)
	n := vrt.Param("n", 300)
	pub := w.connect("p", "1.2")
	x := vrt.Bytes("x", 1)
	pub.feedAll(n, func(i int) []byte {
		return enc("SEND", two(i, x...), "destination", "/queue/q", "content-length", "3")
	})
	ver := []string{"1.2", "1.1"}[vrt.Choose("ver", 2)]
	a := w.connect("a", ver)
	mode := ackModes[vrt.Choose("mode", 4)]
	if mode == "" {
		a.c.feed(enc("SUBSCRIBE", nil, "id", "s", "destination", "/queue/q"))
	} else {
		a.c.feed(enc("SUBSCRIBE", nil, "id", "s", "destination", "/queue/q", "ack", mode))
	}
	if mode == "" || mode == "auto" {
		fs := a.bulk()
		vrt.Assert(len(fs) == n, "messages of a long queue are lost or repeated")
		for i, f := range fs {
			vrt.Assert(vrt.EqBytes(f.body, two(i, x...)), "messages of a long queue are out of order or changed")
		}
		vrt.Reach("auto")
		return
	}
	stop := n
	again := 0 // every so many messages one is returned
	switch vrt.Choose("how", 3) {
	case 1:
		again = 7
	case 2:
		stop = n / 2
	}
	ids := map[string]bool{}
	for i := 0; i < stop; i++ {
		for try := 0; ; try++ {
			fs := a.bulk()
			vrt.Assert(len(fs) == 1, "not exactly one message for a consumer that acknowledges")
			f := fs[0]
			vrt.Assert(vrt.EqBytes(f.body, two(i, x...)), "messages of a long queue are lost, repeated or out of order")
			id := f.get("message-id")
			vrt.Assert(id != "" && !ids[id], "a message-id is used twice")
			ids[id] = true
			cmd := "ACK"
			if again > 0 && i%again == 0 && try == 0 {
				cmd = "NACK"
			}
			if ver == "1.2" {
				a.c.feed(enc(cmd, nil, "id", f.get("ack")))
			} else {
				a.c.feed(enc(cmd, nil, "message-id", id, "subscription", "s"))
			}
			if cmd == "ACK" {
				break
			}
		}
	}
	vrt.Quiesce()
	a.c.hangup()
	vrt.Quiesce()
	b := w.connect("b", "1.2")
	b.c.feed(enc("SUBSCRIBE", nil, "id", "s", "destination", "/queue/q"))
	fs := b.bulk()
	vrt.Assert(len(fs) == n-stop, "messages of a long queue are lost or repeated")
	for i, f := range fs {
		vrt.Assert(vrt.EqBytes(f.body, two(i+stop, x...)), "messages of a long queue are out of order or changed")
	}
	vrt.Reach("acked")
}

// ServerMany: many subscriptions, destinations, connections or transactions
// at once.
func ServerMany() {
	w := newWorld(nil)
	n := vrt.Param("n", 100)
	a := w.connect("a", "1.2")
	x := vrt.Bytes("x", 1)
	dest := func(i int) string { return "/queue/" + strconv.Itoa(i) }
	switch one("many", 7) {
	case 0: // subscriptions of one connection to one topic
		a.feedAll(n, func(i int) []byte { return enc("SUBSCRIBE", nil, "id", strconv.Itoa(i), "destination", "/topic/t") })
		a.c.feed(enc("UNSUBSCRIBE", nil, "id", "1"))
		a.c.feed(enc("SEND", x, "destination", "/topic/t", "content-length", "1"))
		got := map[string]bool{}
		for _, f := range a.bulk() {
			vrt.Assert(vrt.EqBytes(f.body, x), "a message is changed")
			got[f.get("subscription")] = true
		}
		vrt.Assert(len(got) == n-1 && !got["1"], "not every one of many subscriptions gets a topic message")
	case 1: // connections
		var ps []*peer
		for i := 0; i < n; i++ {
			p := w.connect("c"+strconv.Itoa(i), "1.1")
			p.c.feed(enc("SUBSCRIBE", nil, "id", "s", "destination", "/topic/t"))
			ps = append(ps, p)
		}
		vrt.Quiesce()
		ps[0].c.hangup()
		vrt.Quiesce()
		a.c.feed(enc("SEND", x, "destination", "/topic/t", "content-length", "1"))
		for _, p := range ps[1:] {
			fs := p.bulk()
			vrt.Assert(len(fs) == 1 && vrt.EqBytes(fs[0].body, x), "not every one of many clients gets a topic message")
		}
	case 2: // queues
		a.feedAll(n, func(i int) []byte {
			return enc("SEND", two(i, x...), "destination", dest(i), "content-length", "3")
		})
		b := w.connect("b", "1.2")
		b.feedAll(n, func(i int) []byte {
			return enc("SUBSCRIBE", nil, "id", "s"+strconv.Itoa(n-1-i), "destination", dest(n-1-i), "ack", "client")
		})
		fs := b.bulk()
		vrt.Assert(len(fs) == n, "messages of many queues are lost")
		for i, f := range fs {
			k := n - 1 - i
			vrt.Assert(f.get("subscription") == "s"+strconv.Itoa(k) && f.get("destination") == dest(k) && vrt.EqBytes(f.body, two(k, x...)), "a message of one of many queues is not delivered to its subscription")
		}
	case 3: // transactions
		a.feedAll(n, func(i int) []byte { return enc("BEGIN", nil, "transaction", "t"+strconv.Itoa(i)) })
		a.feedAll(2*n, func(i int) []byte {
			return enc("SEND", two(i%n, x...), "destination", "/queue/q", "content-length", "3", "transaction", "t"+strconv.Itoa(i%n))
		})
		b := w.connect("b", "1.2")
		b.c.feed(enc("SUBSCRIBE", nil, "id", "s", "destination", "/queue/q"))
		vrt.Assert(len(b.bulk()) == 0, "a message is delivered before COMMIT")
		a.feedAll(n, func(i int) []byte {
			if i%3 == 2 {
				return enc("ABORT", nil, "transaction", "t"+strconv.Itoa(n-1-i))
			}
			return enc("COMMIT", nil, "transaction", "t"+strconv.Itoa(n-1-i))
		})
		fs := b.bulk()
		k := 0
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				continue
			}
			for j := 0; j < 2; j++ {
				vrt.Assert(k < len(fs) && vrt.EqBytes(fs[k].body, two(n-1-i, x...)), "many transactions: messages are lost or out of order")
				k++
			}
		}
		vrt.Assert(k == len(fs), "many transactions: too many messages")
	case 4: // receipts
		a.feedAll(n, func(i int) []byte {
			return enc("SEND", x, "destination", "/queue/q", "content-length", "1", "receipt", "r"+strconv.Itoa(i))
		})
		fs := a.bulk()
		vrt.Assert(len(fs) == n, "receipts are lost or repeated")
		for i, f := range fs {
			vrt.Assert(f.cmd == "RECEIPT" && f.get("receipt-id") == "r"+strconv.Itoa(i), "wrong receipt-id, or receipts out of order")
		}
	case 5: // unacknowledged messages of one connection, returned by its end
		a.feedAll(n, func(i int) []byte {
			return enc("SEND", two(i, x...), "destination", dest(i), "content-length", "3")
		})
		b := w.connect("b", "1.2")
		b.feedAll(n, func(i int) []byte {
			return enc("SUBSCRIBE", nil, "id", "s"+strconv.Itoa(i), "destination", dest(i), "ack", "client-individual")
		})
		fs := b.bulk()
		vrt.Assert(len(fs) == n, "messages of many queues are lost")
		b.c.feed(enc("ACK", nil, "id", fs[n/2].get("ack")))
		vrt.Quiesce()
		b.c.hangup()
		vrt.Quiesce()
		a.feedAll(n, func(i int) []byte { return enc("SUBSCRIBE", nil, "id", "s"+strconv.Itoa(i), "destination", dest(i)) })
		k := 0
		for _, f := range a.bulk() {
			if k == n/2 {
				k++
			}
			vrt.Assert(k < n && vrt.EqBytes(f.body, two(k, x...)), "the messages of a connection that ended are lost")
			k++
		}
		vrt.Assert(k == n, "the messages of a connection that ended are lost")
	case 6: // a transaction with many messages for the connection's own subscriptions
		a.c.feed(enc("SUBSCRIBE", nil, "id", "t", "destination", "/topic/t"))
		a.feedAll(10, func(i int) []byte { return enc("SUBSCRIBE", nil, "id", "q"+strconv.Itoa(i), "destination", dest(i)) })
		a.c.feed(enc("BEGIN", nil, "transaction", "x"))
		to := func(i int) string {
			if i%2 == 0 {
				return "/topic/t"
			}
			return dest(i / 2 % 10)
		}
		a.feedAll(n, func(i int) []byte {
			return enc("SEND", two(i, x...), "destination", to(i), "content-length", "3", "transaction", "x")
		})
		a.c.feed(enc("COMMIT", nil, "transaction", "x"))
		got := map[string]int{}
		for _, f := range a.bulk() {
			d := f.get("destination")
			i := got[d]
			for i < n && to(i) != d {
				i++
			}
			vrt.Assert(i < n && vrt.EqBytes(f.body, two(i, x...)), "a transaction with many messages: they are lost or out of order")
			got[d] = i + 1
		}
		for i := n - 20; i < n; i++ {
			j := got[to(i)]
			for j < n && to(j) != to(i) {
				j++
			}
			vrt.Assert(j >= n, "a transaction with many messages: some are lost")
		}
	}
	vrt.Reach("end")
}

// ClientLong: a client that has done the same thing many times.
func ClientLong() {
	x := newCli("1.2", nil, stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.RcvReceiptTimeout(time.Hour), stomp.ConnOpt.WithStats())
	n := vrt.Param("n", 300)
	any := vrt.Bytes("x", 1)
	ids := map[string]bool{}
	fresh := func(id string) string {
		vrt.Assert(id != "" && !ids[id], "an id is used twice")
		ids[id] = true
		return id
	}
	switch one("long", 7) {
	case 0: // messages for one subscription
		sub, err := x.conn.Subscribe("/d", stomp.AckClient)
		vrt.Assert(err == nil, "Subscribe fails")
		vrt.Quiesce()
		x.c.frames()
		for i := 0; i < n; i++ {
			x.message(sub.Id(), two(i, any...), kv{"ack", strconv.Itoa(i)}, kv{"content-length", "3"})
			m := <-sub.C
			vrt.Assert(m != nil && m.Err == nil && vrt.EqBytes(m.Body, two(i, any...)), "messages are lost, changed or out of order")
			vrt.Assert(x.conn.Ack(m) == nil, "Ack fails")
			vrt.Quiesce()
			fs := x.c.frames()
			vrt.Assert(len(fs) == 1 && fs[0].cmd == "ACK" && fs[0].get("id") == strconv.Itoa(i), "Ack sends something else")
		}
	case 1: // subscriptions
		var subs []*stomp.Subscription
		for i := 0; i < n; i++ {
			sub, err := x.conn.Subscribe("/d"+strconv.Itoa(i), stomp.AckAuto)
			vrt.Assert(err == nil, "Subscribe fails")
			fresh(sub.Id())
			subs = append(subs, sub)
		}
		vrt.Quiesce()
		fs := x.c.frames()
		vrt.Assert(len(fs) == n, "not exactly one SUBSCRIBE for each call")
		for i, f := range fs {
			vrt.Assert(f.get("id") == subs[i].Id() && f.get("destination") == "/d"+strconv.Itoa(i), "Subscribe sends something else")
		}
		for i := range subs {
			k := (i * 7) % n
			x.message(subs[k].Id(), two(k, any...), kv{"content-length", "3"})
			vrt.Quiesce()
			m := <-subs[k].C
			vrt.Assert(m != nil && m.Err == nil && vrt.EqBytes(m.Body, two(k, any...)), "a message reaches another subscription")
		}
	case 2: // receipts
		for i := 0; i < n; i++ {
			c := x.start("Send", func() error { return x.conn.Send("/d", "", any, stomp.SendOpt.Receipt) })
			x.begun(c, "SEND")
			x.c.feed(enc("RECEIPT", nil, "receipt-id", fresh(c.id)))
			vrt.Quiesce()
			c.ok()
		}
	case 3: // requests under way at the same time
		var cs []*call
		for i := 0; i < n; i++ {
			c := x.start("Send", func() error { return x.conn.Send("/d", "", any, stomp.SendOpt.Receipt) })
			x.begun(c, "SEND")
			fresh(c.id)
			cs = append(cs, c)
		}
		for i := range cs {
			k := (i * 7) % n
			x.c.feed(enc("RECEIPT", nil, "receipt-id", cs[k].id))
			vrt.Quiesce()
			cs[k].ok()
			if i+1 < n {
				cs[((i+1)*7)%n].pending()
			}
		}
	case 6: // the same, all with receipts that the program has chosen alike
		var cs []*call
		for i := 0; i < n; i++ {
			r := []string{"r", "r-", "1"}[i%3]
			c := x.start("Send", func() error { return x.conn.Send("/d", "", any, stomp.SendOpt.Header("receipt", r)) })
			x.begun(c, "SEND")
			fresh(c.id)
			cs = append(cs, c)
		}
		for i := range cs {
			k := (i * 7) % n
			x.c.feed(enc("RECEIPT", nil, "receipt-id", cs[k].id))
			vrt.Quiesce()
			cs[k].ok()
			if i+1 < n {
				cs[((i+1)*7)%n].pending()
			}
		}
	case 4: // transactions
		for i := 0; i < n; i++ {
			tx := x.conn.Begin()
			id := fresh(tx.Id())
			vrt.Assert(tx.Send("/d", "", two(i, any...)) == nil, "Transaction.Send fails")
			vrt.Assert(tx.Commit() == nil, "Commit fails")
			vrt.Quiesce()
			fs := x.c.frames()
			vrt.Assert(len(fs) == 3 && fs[0].cmd == "BEGIN" && fs[1].cmd == "SEND" && fs[2].cmd == "COMMIT", "a transaction sends something else")
			for _, f := range fs {
				vrt.Assert(f.get("transaction") == id, "a transaction sends something else")
			}
			vrt.Assert(vrt.EqBytes(fs[1].body, two(i, any...)), "a transaction sends something else")
		}
	case 5: // a long message each way
		body := long("b", vrt.Param("blen", 20000))
		sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
		vrt.Assert(err == nil, "Subscribe fails")
		vrt.Assert(x.conn.Send("/d", "", body) == nil, "Send fails")
		vrt.Quiesce()
		fs := x.c.frames()
		vrt.Assert(len(fs) == 2 && vrt.EqBytes(fs[1].body, body), "Send changes a long body")
		x.message(sub.Id(), body, kv{"content-length", strconv.Itoa(len(body))})
		m := <-sub.C
		vrt.Assert(m != nil && m.Err == nil && vrt.EqBytes(m.Body, body), "a long message is changed")
	}
	x.works()
	vrt.Reach("end")
}
