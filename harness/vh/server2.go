package vh

import (
	"strconv"

	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C19: topics
// ---------------------------------------------------------------------------

// TopicHistory: peers subscribe, unsubscribe, send and leave in any order, on
// topics and (with queues=1) a queue next to them.
func TopicHistory() {
	w := newWorld(nil)
	np := vrt.Param("peers", 2)
	n := vrt.Param("n", 3)
	w.destinations("/topic/", vrt.Param("topics", 1))
	w.extra = vrt.Param("extra", 0) == 1
	if k := vrt.Param("more", 0); k > 0 {
		w.more = vrt.Choose("more", k+1)
	}
	if vrt.Param("queues", 0) == 1 {
		// the same name as a queue and as a topic
		w.dests = append(w.dests, "/queue/"+w.dests[0][7:])
	}
	nd := len(w.dests)
	// all clients use the same ids, or each its own
	own := vrt.Param("own", 0) == 1
	idOf := func(i, k int) string {
		if own {
			return "i" + strconv.Itoa(i) + strconv.Itoa(k)
		}
		return "i" + strconv.Itoa(k)
	}
	for i := 0; i < np; i++ {
		w.connect("p"+strconv.Itoa(i), []string{"1.1", "1.2"}[i&1])
		w.peers[i].receipts = vrt.Param("receipts", 0) == 1
	}
	for i, p := range w.peers {
		for k := 0; k < vrt.Param("pre", 1); k++ {
			p.subscribe(idOf(i, k), vrt.Choose("pdest"+strconv.Itoa(i), nd), "")
			w.settle()
		}
	}
	for i := 0; i < n; i++ {
		type op struct {
			kind int
			p    *peer
			s    *hsub
			d    int
		}
		var ops []op
		for _, p := range w.peers {
			if p.gone {
				continue
			}
			for d := 0; d < nd; d++ {
				ops = append(ops, op{kind: 0, p: p, d: d})
			}
			nact := 0
			for _, s := range p.subs {
				if s.active {
					nact++
					ops = append(ops, op{kind: 2, p: p, s: s})
				}
			}
			if nact < vrt.Param("subs", 2) {
				ops = append(ops, op{kind: 1, p: p})
			}
			ops = append(ops, op{kind: 3, p: p})
		}
		if len(ops) == 0 {
			break
		}
		o := ops[vrt.Choose("op"+strconv.Itoa(i), len(ops))]
		switch o.kind {
		case 0:
			o.p.send(o.d)
			vrt.Reach("send")
		case 1:
			pi := 0
			for i, p := range w.peers {
				if p == o.p {
					pi = i
				}
			}
			id := idOf(pi, 0)
			for _, s := range o.p.subs {
				if s.active && s.id == id {
					id = idOf(pi, 1)
				}
			}
			o.p.subscribe(id, vrt.Choose("odest", nd), []string{"", "client", "client-individual", "auto"}[vrt.Choose("omode", vrt.Param("modes", 2))])
			vrt.Reach("subscribe")
		case 2:
			o.p.unsubscribe(o.s)
			vrt.Reach("unsubscribe")
		case 3:
			o.p.leave(vrt.Choose("how", vrt.Param("hows", 1)))
			vrt.Reach("leave")
		}
		w.settle()
	}
	if vrt.Param("queues", 0) == 1 {
		w.drain()
	}
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C20: transactions
// ---------------------------------------------------------------------------

type htx struct {
	name string
	ms   []txop
}

type txop struct {
	kind int // 0 send, 1 ack, 2 nack
	m    *qmsg
}

// TxHistory: one client with transactions, an observer of a topic, and a
// queue with two messages waiting for the client.
func TxHistory() {
	n := vrt.Param("n", 4)
	w := newWorld(nil)
	w.dests = []string{"/topic/" + word("t", 1), "/queue/" + word("q", 1), "/queue/" + word("q", 1) + "x"}
	obs := w.connect("obs", "1.2")
	obs.subscribe("o0", 0, "")
	obs.subscribe("o1", 2, "")
	a := w.connect("a", []string{"1.2", "1.1"}[vrt.Choose("ver", vrt.Param("vers", 2))])
	a.receipts = vrt.Param("receipts", 0) == 1
	if vrt.Param("acks", 1) == 1 {
		a.subscribe("s", 1, ackModes[1+vrt.Choose("mode", 2)])
		obs.send(1)
		w.settle()
		obs.send(1)
	}
	w.settle()
	names := []string{word("tx0", 1), word("tx1", 1)}
	var open []*htx
	find := func(name string) *htx {
		for _, t := range open {
			if vrt.EqStr(t.name, name) {
				return t
			}
		}
		return nil
	}
	commit := func(t *htx) {
		for _, o := range t.ms {
			switch o.kind {
			case 0:
				w.publish(o.m)
			case 1:
				o.m.sub.drop(o.m)
				o.m.state = mSettled
			case 2:
				o.m.sub.drop(o.m)
				w.requeue(o.m)
				w.front--
			}
		}
	}
	drop := func(t *htx) {
		for _, o := range t.ms {
			if o.kind == 0 {
				o.m.state = mNever
			}
		}
		var l []*htx
		for _, x := range open {
			if x != t {
				l = append(l, x)
			}
		}
		open = l
	}
	fail := func() {
		// a protocol error ends the connection
		a.gone = true
		for _, s := range a.subs {
			s.active = false
			s.out = nil
		}
		for _, m := range w.msgs {
			if m.state == mOut && m.sub.p == a {
				w.requeue(m)
			}
			if m.state == mTx {
				m.state = mNever
			}
		}
		w.front--
	}
	for i := 0; i < n && !a.gone; i++ {
		is := strconv.Itoa(i)
		var acks []*qmsg
		for _, m := range w.msgs {
			if m.state == mOut && m.sub.p == a {
				acks = append(acks, m)
			}
		}
		known := vrt.Param("known", 0) == 1 // only frames that refer to an open transaction
		ops := []int{0, 1, 2, 3, 4}
		if known {
			ops = []int{4}
			if len(open) < 2 {
				ops = append(ops, 0)
			}
			if len(open) > 0 {
				ops = append(ops, 1, 2, 3)
			}
		}
		if len(acks) > 0 && (!known || len(open) > 0) {
			// not while the message is already part of a transaction
			used := false
			for _, t := range open {
				for _, o := range t.ms {
					if o.m == acks[0] {
						used = true
					}
				}
			}
			if !used {
				ops = append(ops, 6, 7)
			}
			if !used && vrt.Param("plain", 1) == 1 {
				ops = append(ops, 8)
			}
		}
		if vrt.Param("plain", 1) == 1 {
			ops = append(ops, 5)
		}
		k := ops[vrt.Choose("op"+is, len(ops))]
		name := names[0]
		if k != 4 && k != 5 && k != 8 {
			if !known {
				name = names[vrt.Choose("tx"+is, 2)]
			} else if k != 0 {
				name = open[vrt.Choose("tx"+is, len(open))].name
			} else {
				name = names[i&1]
				vrt.Assume(find(name) == nil)
			}
		}
		switch k {
		case 0:
			a.feed("BEGIN", nil, "transaction", name)
			if find(name) != nil {
				fail()
				vrt.Reach("begin-twice")
			} else {
				open = append(open, &htx{name: name})
				vrt.Reach("begin")
			}
		case 1:
			a.feed("COMMIT", nil, "transaction", name)
			if t := find(name); t != nil {
				commit(t)
				if len(t.ms) > 0 {
					vrt.Reach("commit")
				}
				t.ms = nil
				drop(t)
			} else {
				fail()
				vrt.Reach("commit-unknown")
			}
		case 2:
			a.feed("ABORT", nil, "transaction", name)
			if t := find(name); t != nil {
				drop(t)
				vrt.Reach("abort")
			} else {
				fail()
				vrt.Reach("abort-unknown")
			}
		case 3:
			m := w.newMsg(a, []int{0, 2}[vrt.Choose("sdest"+is, 2)])
			a.sendFrame(m, "transaction", name)
			if t := find(name); t != nil {
				t.ms = append(t.ms, txop{0, m})
			} else {
				fail()
				vrt.Reach("send-unknown")
			}
		case 4:
			a.leave(vrt.Choose("how"+is, 2))
			vrt.Reach("leave")
		case 5:
			// not in a transaction
			a.send([]int{0, 2}[vrt.Choose("sdest"+is, 2)])
		case 6, 7:
			cmd := []string{"ACK", "NACK"}[k-6]
			a.ackFrame(cmd, acks[0], "transaction", name)
			if t := find(name); t != nil {
				t.ms = append(t.ms, txop{k - 5, acks[0]})
				vrt.Reach("tx-ack")
			} else {
				fail()
			}
		case 8:
			a.ack(acks[0])
		}
		w.settle()
		vrt.Assert(a.errs == 0 || a.gone, "a valid transaction frame was rejected")
		vrt.Assert(!a.gone || a.c.down(), "a frame of an unknown transaction does not end the connection")
	}
	w.drain()
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C21: receipts
// ---------------------------------------------------------------------------

// ReceiptHistory: a client sends n frames in one go, each of them good or
// wrong and with or without a receipt header of arbitrary bytes.
func ReceiptHistory() {
	n := vrt.Param("n", 3)
	w := newWorld(nil)
	w.dests = []string{"/topic/t", "/queue/q"}
	obs := w.connect("obs", "1.2")
	obs.subscribe("o0", 0, "")
	w.settle()
	a := w.connect("a", []string{"1.2", "1.1"}[vrt.Choose("ver", 2)])
	a.subscribe("q", 1, "client")
	w.settle()
	obs.send(1)
	w.settle()
	out := a.subs[0].out
	vrt.Assert(len(out) == 1, "the message has not been delivered")
	var want []string
	txOpen, subbed, acked := false, false, false
	bad, badID, badHas := false, "", false
	sent := 0
	var all []byte
	put := func(cmd string, body []byte, hs ...string) {
		all = append(all, enc(cmd, body, hs...)...)
	}
	for i := 0; i < n && !bad; i++ {
		is := strconv.Itoa(i)
		var rh []string
		rid := ""
		has := vrt.Choose("has"+is, 2) == 1
		if has {
			rid = vrt.String("r"+is, vrt.Param("rlen", 1))
			rh = []string{"receipt", rid}
		}
		ok := true
		switch vrt.Choose("op"+is, 12) {
		case 0:
			put("SEND", []byte("x"), append([]string{"destination", "/topic/t"}, rh...)...)
			sent++
		case 1:
			put("SUBSCRIBE", nil, append([]string{"destination", "/topic/other", "id", "s"}, rh...)...)
			ok = !subbed
			subbed = true
		case 2:
			put("UNSUBSCRIBE", nil, append([]string{"id", "s"}, rh...)...)
			ok = subbed
			subbed = false
		case 3:
			put("BEGIN", nil, append([]string{"transaction", "t"}, rh...)...)
			ok = !txOpen
			txOpen = true
		case 4:
			put("COMMIT", nil, append([]string{"transaction", "t"}, rh...)...)
			ok = txOpen
			txOpen = false
		case 5:
			put("ABORT", nil, append([]string{"transaction", "t"}, rh...)...)
			ok = txOpen
			txOpen = false
		case 6:
			put("SEND", []byte("x"), append([]string{"destination", "/topic/none", "transaction", "t"}, rh...)...)
			ok = txOpen
		case 7, 8:
			if acked {
				continue
			}
			acked = true
			cmd := []string{"ACK", "NACK"}[vrt.Choose("nack"+is, 2)]
			if a.ver == "1.2" {
				put(cmd, nil, append([]string{"id", out[0].ackID}, rh...)...)
			} else {
				put(cmd, nil, append([]string{"message-id", out[0].msgID, "subscription", "q"}, rh...)...)
			}
		case 9:
			put("SEND", nil, rh...) // no destination
			ok = false
		case 10:
			put("MESSAGE", nil, rh...)
			ok = false
		case 11:
			put("DISCONNECT", nil, rh...)
			if has {
				want = append(want, rid)
			}
			vrt.Reach("disconnect")
			i = n
			continue
		}
		if ok {
			if has {
				want = append(want, rid)
			}
		} else {
			bad, badID, badHas = true, rid, has
		}
	}
	if len(all) == 0 {
		return
	}
	a.c.feed(all)
	vrt.Quiesce()
	errs := 0
	for _, f := range a.c.frames() {
		switch f.cmd {
		case "RECEIPT":
			vrt.Assert(errs == 0, "a RECEIPT after the ERROR frame")
			vrt.Assert(len(want) > 0, "a RECEIPT nobody asked for, or for a frame that failed")
			vrt.Assert(vrt.EqStr(f.get("receipt-id"), want[0]), "wrong receipt-id, or RECEIPT frames out of order")
			want = want[1:]
			vrt.Reach("receipt")
		case "ERROR":
			errs++
			vrt.Assert(bad, "an ERROR although every frame was right")
			vrt.Assert(f.has("message"), "an ERROR without message header")
			if badHas {
				vrt.Assert(vrt.EqStr(f.get("receipt-id"), badID), "the ERROR does not name the receipt of the frame that failed")
			}
			vrt.Reach("error")
		}
	}
	vrt.Assert(len(want) == 0, "a frame that was processed got no RECEIPT")
	vrt.Assert(errs == 0 && !bad || errs == 1 && bad, "a wrong frame is not answered with one ERROR")
	vrt.Assert(!bad || a.c.down(), "the connection stays open after an ERROR")
	got := 0
	for _, f := range obs.c.frames() {
		if f.cmd == "MESSAGE" {
			got++
			vrt.Assert(!f.has("receipt"), "the receipt header is passed on to subscribers")
		}
	}
	vrt.Assert(got == sent, "a SEND was not processed, or something else was")
	vrt.Reach("end")
}
