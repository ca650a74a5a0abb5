package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C09: what every call of the client puts on the wire
// ---------------------------------------------------------------------------

type wantFrame struct {
	cmd  string
	hs   []kv
	body []byte
}

// sent: since the last call exactly these frames have been written.
func (x *cli) sent(what string, want ...wantFrame) []wframe {
	vrt.Quiesce()
	fs := x.c.frames()
	vrt.Assert(len(fs) == len(want), what+": another number of frames is sent")
	for i, w := range want {
		vrt.Assert(fs[i].cmd == w.cmd, what+": another command is sent")
		vrt.Assert(sameByKey(firstOf("transaction", fs[i].hs), firstOf("transaction", w.hs)), what+": the headers sent are not those of the call")
		vrt.Assert(vrt.EqBytes(fs[i].body, w.body), what+": the body sent is not that of the call")
	}
	return fs
}

// firstOf drops all entries with key k but the first one, which counts.
func firstOf(k string, hs []kv) (r []kv) {
	seen := false
	for _, h := range hs {
		if len(h.k) == len(k) && h.k == k {
			if seen {
				continue
			}
			seen = true
		}
		r = append(r, h)
	}
	return r
}

type calls struct {
	*cli
	subs     []*stomp.Subscription
	modes    []stomp.AckMode
	unsub    []bool
	msgs     []*stomp.Message
	msgSub   []int
	msgID    []string // "" when the header is missing
	ackID    []string
	txs      []*stomp.Transaction
	done     []bool
	ids      []string
	gone     bool
	n        int
	arb      int
	scripted bool
}

func (x *calls) unique(id, what string) {
	vrt.Assert(id != "", what+" is empty")
	for _, o := range x.ids {
		vrt.Assert(!vrt.EqStr(o, id), what+" is not unique")
	}
	x.ids = append(x.ids, id)
}

// one is a text of one byte; in a history at most the texts of as many places
// as the parameter arb says are arbitrary, whichever places they are.
func (x *calls) one(name string) string {
	name += strconv.Itoa(x.n)
	if x.arb > 0 && !x.scripted && vrt.Choose("arb-"+name, 2) == 1 {
		x.arb--
		return vrt.String(name, 1)
	}
	return name[:1]
}

// opt chooses one of n options of a call; scripted calls have none.
func (x *calls) opt(name string, n int) int {
	if x.scripted {
		return 0
	}
	return vrt.Choose(name+strconv.Itoa(x.n), n)
}

// sendArgs: arbitrary arguments of a Send and the frame they stand for.
func (x *calls) sendArgs() (dest, ct string, body []byte, opts []frameOpt, w wantFrame, bad bool) {
	n := strconv.Itoa(x.n)
	dest = "/" + x.one("dest")
	if x.opt("ct", 2) == 1 {
		ct = x.one("type")
	}
	body = vrt.Bytes("body"+n, vrt.Choose("blen"+n, vrt.Param("blen", 2)+1))
	w = wantFrame{cmd: "SEND", hs: []kv{{"destination", dest}}, body: append([]byte(nil), body...)}
	if ct != "" {
		w.hs = append(w.hs, kv{"content-type", ct})
	}
	length := true
	switch x.opt("opt", vrt.Param("opts", 6)) {
	case 1:
		opts = []frameOpt{stomp.SendOpt.NoContentLength}
		length = false
		for _, b := range body {
			vrt.Assume(b != 0)
		}
	case 2:
		k, v := x.one("k"), x.one("v")
		opts = []frameOpt{nil, stomp.SendOpt.Header(k, v), stomp.SendOpt.Header(k, "2")}
		w.hs = append(w.hs, kv{k, v}, kv{k, "2"})
	case 3:
		// the first value of a repeated header counts
		opts = []frameOpt{stomp.SendOpt.Header("destination", "/other")}
		w.hs = append(w.hs, kv{"destination", "/other"})
	case 4:
		opts = []frameOpt{stomp.SubscribeOpt.Id("1")}
		bad = true
	case 5:
		// Transaction.Send sends in its transaction all the same
		opts = []frameOpt{stomp.SendOpt.Header("transaction", "other")}
		w.hs = append(w.hs, kv{"transaction", "other"})
	}
	if length {
		w.hs = append(w.hs, kv{"content-length", strconv.Itoa(len(body))})
	}
	return
}

// pick one of n things, the latest first.
func (x *calls) pick(what string, n int) int {
	return n - 1 - vrt.Choose(what+strconv.Itoa(x.n), n)
}

func (x *calls) step(op int) {
	conn := x.conn
	x.n++
	n := strconv.Itoa(x.n)
	switch op {
	case 0: // Send
		dest, ct, body, opts, w, bad := x.sendArgs()
		err := conn.Send(dest, ct, body, opts...)
		if x.gone || bad {
			vrt.Assert(err != nil, "Send succeeds on a closed connection or with a wrong option")
			x.sent("a refused Send")
		} else {
			vrt.Assert(err == nil, "Send fails")
			x.sent("Send", w)
		}
		vrt.Reach("send")
	case 1: // Subscribe
		dest := "/" + x.one("sdest")
		mode := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[vrt.Choose("mode"+n, 3)]
		w := wantFrame{cmd: "SUBSCRIBE", hs: []kv{{"destination", dest}, {"ack", []string{"auto", "client", "client-individual"}[mode]}}}
		var opts []frameOpt
		id, bad := "", false
		switch x.opt("sopt", 4) {
		case 1:
			id = "s" + x.one("sid")
			opts = append(opts, stomp.SubscribeOpt.Id(id))
		case 2:
			k, v := x.one("sk"), x.one("sv")
			opts = append(opts, nil, stomp.SubscribeOpt.Header(k, v))
			w.hs = append(w.hs, kv{k, v})
		case 3:
			bad = true
			opts = append(opts, stomp.SendOpt.NoContentLength)
		}
		sub, err := conn.Subscribe(dest, mode, opts...)
		if x.gone || bad {
			vrt.Assert(err != nil && sub == nil, "Subscribe succeeds on a closed connection or with a wrong option")
			x.sent("a refused Subscribe")
			return
		}
		vrt.Assert(err == nil && sub != nil, "Subscribe fails")
		if id == "" {
			x.unique(sub.Id(), "the id of a subscription")
			id = sub.Id()
		} else {
			// the program has to choose different ids
			for _, o := range x.ids {
				vrt.Assume(!vrt.EqStr(o, id))
			}
			x.ids = append(x.ids, id)
		}
		vrt.Assert(vrt.EqStr(sub.Id(), id), "Subscription.Id is not the id of the program")
		vrt.Assert(vrt.EqStr(sub.Destination(), dest) && sub.AckMode() == mode && sub.Active(), "the properties of a subscription are wrong")
		w.hs = append(w.hs, kv{"id", id})
		x.sent("Subscribe", w)
		x.subs = append(x.subs, sub)
		x.modes = append(x.modes, mode)
		x.unsub = append(x.unsub, false)
		vrt.Reach("subscribe")
	case 2: // the server sends a message
		if x.gone || len(x.subs) == 0 {
			return
		}
		s := x.pick("msub", len(x.subs))
		if x.unsub[s] {
			return
		}
		hs := []string{"subscription", x.subs[s].Id(), "destination", "/d"}
		mid, aid := "", ""
		if vrt.Choose("mid"+n, 2) == 0 {
			mid = "m" + x.one("message")
			hs = append(hs, "message-id", mid)
		}
		if vrt.Choose("aid"+n, 2) == 0 {
			aid = "a" + x.one("ack")
			hs = append(hs, "ack", aid)
		}
		x.c.feed(enc("MESSAGE", nil, hs...))
		vrt.Quiesce()
		vrt.Assert(len(x.subs[s].C) == 1, "a message does not arrive")
		m := <-x.subs[s].C
		vrt.Assert(m.Err == nil && m.ShouldAck() == (x.modes[s] != stomp.AckAuto), "Message.ShouldAck is wrong")
		x.msgs, x.msgSub = append(x.msgs, m), append(x.msgSub, s)
		x.msgID, x.ackID = append(x.msgID, mid), append(x.ackID, aid)
		vrt.Reach("message")
	case 3, 4: // Ack, Nack
		x.ackNack(op == 3, nil, nil)
	case 5: // Begin
		var tx *stomp.Transaction
		var err error
		if vrt.Choose("begin"+n, 2) == 0 {
			tx = conn.Begin()
		} else {
			tx, err = conn.BeginWithError()
			vrt.Assert((err != nil) == x.gone, "BeginWithError: wrong result")
		}
		vrt.Assert(tx != nil, "Begin returns nothing")
		if x.gone {
			x.sent("Begin on a closed connection")
			return
		}
		x.unique(tx.Id(), "the id of a transaction")
		vrt.Assert(tx.Conn() == conn, "Transaction.Conn is wrong")
		x.sent("Begin", wantFrame{cmd: "BEGIN", hs: []kv{{"transaction", tx.Id()}}})
		x.txs, x.done = append(x.txs, tx), append(x.done, false)
		vrt.Reach("begin")
	case 6, 7, 8, 9, 10: // in a transaction
		if len(x.txs) == 0 {
			return
		}
		t := x.pick("tx", len(x.txs))
		tx := x.txs[t]
		switch op {
		case 6:
			dest, ct, body, opts, w, bad := x.sendArgs()
			err := tx.Send(dest, ct, body, opts...)
			switch {
			case x.done[t]:
				vrt.Assert(err == stomp.ErrCompletedTransaction, "a completed transaction is used")
				x.sent("Send in a completed transaction")
			case bad || x.gone:
				vrt.Assert(err != nil, "Transaction.Send succeeds on a closed connection or with a wrong option")
				x.sent("a refused Transaction.Send")
			default:
				vrt.Assert(err == nil, "Transaction.Send fails")
				w.hs = append([]kv{{"transaction", tx.Id()}}, w.hs...)
				x.sent("Transaction.Send", w)
				vrt.Reach("txsend")
			}
		case 7, 8:
			x.ackNack(op == 7, tx, &x.done[t])
		default:
			var err error
			cmd := "COMMIT"
			if op == 9 {
				err = tx.Commit()
			} else {
				cmd = "ABORT"
				err = tx.Abort()
			}
			switch {
			case x.done[t]:
				vrt.Assert(err == stomp.ErrCompletedTransaction, "a completed transaction is used")
				x.sent("the end of a completed transaction")
			case x.gone:
				vrt.Assert(err != nil, "a transaction ends on a closed connection")
				x.sent("the end of a transaction on a closed connection")
			default:
				vrt.Assert(err == nil, "Commit or Abort fails")
				x.done[t] = true
				x.sent("Commit or Abort", wantFrame{cmd: cmd, hs: []kv{{"transaction", tx.Id()}}})
				vrt.Reach("txend")
			}
		}
	case 11: // Unsubscribe
		if len(x.subs) == 0 {
			return
		}
		s := x.pick("usub", len(x.subs))
		sub := x.subs[s]
		var opts []frameOpt
		w := wantFrame{cmd: "UNSUBSCRIBE", hs: []kv{{"id", sub.Id()}}}
		bad := false
		switch x.opt("uopt", 3) {
		case 1:
			k, v := x.one("uk"), x.one("uv")
			opts = append(opts, stomp.SubscribeOpt.Header(k, v))
			w.hs = append(w.hs, kv{k, v})
		case 2:
			opts = append(opts, nil)
			bad = true
		}
		if x.unsub[s] || x.gone || bad {
			err := sub.Unsubscribe(opts...)
			vrt.Assert(err != nil, "Unsubscribe succeeds twice, on a closed connection or with a wrong option")
			x.sent("a refused Unsubscribe")
			return
		}
		done := false
		go func() {
			err := sub.Unsubscribe(opts...)
			vrt.Assert(err == nil, "Unsubscribe fails")
			done = true
		}()
		vrt.Quiesce()
		fs := x.c.frames()
		vrt.Assert(len(fs) == 1 && fs[0].cmd == "UNSUBSCRIBE", "Unsubscribe does not send an UNSUBSCRIBE frame")
		w.hs = append(w.hs, kv{"receipt", fs[0].get("receipt")})
		vrt.Assert(sameByKey(fs[0].hs, w.hs) && len(fs[0].body) == 0, "Unsubscribe: the headers sent are not those of the call")
		vrt.Assert(!done && !sub.Active(), "Unsubscribe does not wait for the server")
		x.c.feed(enc("RECEIPT", nil, "receipt-id", fs[0].get("receipt")))
		vrt.Quiesce()
		vrt.Assert(done, "Unsubscribe does not return")
		m, ok := <-sub.C
		vrt.Assert(m == nil && !ok, "the channel of a subscription is not closed by Unsubscribe")
		x.unsub[s] = true
		vrt.Reach("unsubscribe")
	case 12: // Disconnect
		if x.gone {
			vrt.Assert(conn.Disconnect() == nil, "a second Disconnect fails")
			x.sent("a second Disconnect")
			return
		}
		done := false
		go func() {
			vrt.Assert(conn.Disconnect() == nil, "Disconnect fails")
			done = true
		}()
		vrt.Quiesce()
		fs := x.c.frames()
		vrt.Assert(len(fs) == 1 && fs[0].cmd == "DISCONNECT" && fs[0].has("receipt") && len(fs[0].hs) == 1, "Disconnect does not send a DISCONNECT frame with a receipt")
		vrt.Assert(!done && !x.c.down(), "Disconnect does not wait for the server")
		x.c.feed(enc("RECEIPT", nil, "receipt-id", fs[0].get("receipt")))
		vrt.Quiesce()
		vrt.Assert(done && x.c.down(), "Disconnect does not end the connection")
		x.gone = true
		vrt.Reach("disconnect")
	}
}

// ackNack: an ACK or NACK of some message, possibly in a transaction.
func (x *calls) ackNack(ack bool, tx *stomp.Transaction, done *bool) {
	m := &stomp.Message{Header: frame.NewHeader("message-id", "1", "ack", "1")}
	i := x.pick("which", len(x.msgs)+1) - 1 // -1: not a received message
	if i >= 0 {
		m = x.msgs[i]
	} else if len(x.msgs) > 0 {
		// or one that lacks a part that a received one has
		r := *x.msgs[0]
		switch x.pick("lacks", 4) {
		case 1:
			r.Conn = nil
			m = &r
		case 2:
			r.Subscription = nil
			m = &r
		case 3:
			r.Header = nil
			m = &r
		}
	}
	var err error
	switch {
	case tx == nil && ack:
		err = x.conn.Ack(m)
	case tx == nil:
		err = x.conn.Nack(m)
	case ack:
		err = tx.Ack(m)
	default:
		err = tx.Nack(m)
	}
	if tx != nil && *done {
		vrt.Assert(err == stomp.ErrCompletedTransaction, "a completed transaction is used")
		x.sent("Ack or Nack in a completed transaction")
		return
	}
	if !ack && x.ver == "1.0" {
		vrt.Assert(err == stomp.ErrNackNotSupported, "Nack succeeds with STOMP 1.0")
		x.sent("Nack with STOMP 1.0")
		vrt.Reach("nack10")
		return
	}
	if i < 0 {
		vrt.Assert(err == stomp.ErrNotReceivedMessage, "a message is acknowledged that has not been received")
		x.sent("Ack or Nack of a message that has not been received")
		return
	}
	s := x.msgSub[i]
	if x.modes[s] == stomp.AckAuto {
		if ack {
			vrt.Assert(err == nil, "Ack of an auto subscription fails")
		} else {
			vrt.Assert(err == stomp.ErrCannotNackAutoSub, "Nack of an auto subscription succeeds")
		}
		x.sent("Ack or Nack of an auto subscription")
		vrt.Reach("auto")
		return
	}
	w := wantFrame{cmd: "NACK"}
	if ack {
		w.cmd = "ACK"
	}
	miss := false
	if x.ver == "1.2" {
		miss = x.ackID[i] == ""
		w.hs = []kv{{"id", x.ackID[i]}}
	} else {
		miss = x.msgID[i] == ""
		w.hs = []kv{{"subscription", x.subs[s].Id()}, {"message-id", x.msgID[i]}}
	}
	if miss || x.gone {
		vrt.Assert(err != nil, "Ack or Nack succeeds without the header it needs or on a closed connection")
		x.sent("a refused Ack or Nack")
		return
	}
	if tx != nil {
		w.hs = append(w.hs, kv{"transaction", tx.Id()})
	}
	vrt.Assert(err == nil, "Ack or Nack fails")
	x.sent("Ack or Nack", w)
	vrt.Reach("ack")
}

const opNames = 13

// Calls: any sequence of calls. script fixes the first ones (decimal digits,
// two per step, last one first).
func Calls() {
	ver := []string{"1.0", "1.1", "1.2"}[vrt.Choose("ver", 3)]
	if v := vrt.Param("ver", -1); v >= 0 {
		vrt.Assume(ver == "1."+strconv.Itoa(v))
	}
	x := &calls{cli: newCli(ver, nil), arb: vrt.Param("arb", 1)}
	var script []int
	for s := vrt.Param("script", 0); s > 0; s /= 100 {
		script = append([]int{s%100 - 1}, script...)
	}
	x.scripted = true
	for _, op := range script {
		x.step(op)
	}
	x.scripted = false
	for i := 0; i < vrt.Param("n", 2); i++ {
		x.step(vrt.Choose("op"+strconv.Itoa(i), opNames))
	}
	vrt.Assert(x.gone || !x.c.down(), "a connection is closed for no reason")
	vrt.Reach("end")
}

// CallOrder: several go-routines use one connection at the same time. The
// frames on the wire are complete, none is lost or sent twice, and those of
// one go-routine are in its order.
func CallOrder() {
	vrt.Delays(0)
	x := newCli("1.1", []string{"heart-beat", "0,100"}, stomp.ConnOpt.HeartBeatError(0), stomp.ConnOpt.WriteChannelCapacity(1))
	sub, err := x.conn.Subscribe("/d", stomp.AckClient)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	x.c.frames()
	x.message(sub.Id(), []byte("m"))
	m := <-sub.C
	vrt.Delays(-1)
	g, k := vrt.Param("g", 2), vrt.Param("k", 2)
	done := 0
	for i := 0; i < g; i++ {
		tag := string(rune('a' + i))
		kinds := make([]int, k)
		for j := range kinds {
			kinds[j] = vrt.Choose("call"+tag+strconv.Itoa(j), 3)
		}
		go func() {
			var tx *stomp.Transaction
			for j, kind := range kinds {
				switch kind {
				case 0:
					vrt.Assert(x.conn.Send("/"+tag, strconv.Itoa(j), []byte(tag)) == nil, "Send fails")
				case 1:
					if tx == nil {
						tx = x.conn.Begin()
					}
					vrt.Assert(tx.Send("/"+tag, strconv.Itoa(j), []byte(tag)) == nil, "Transaction.Send fails")
				case 2:
					if tx == nil {
						tx = x.conn.Begin()
					}
					vrt.Assert(tx.Ack(m) == nil, "Ack fails")
					vrt.Assert(tx.Send("/"+tag, strconv.Itoa(j), []byte(tag)) == nil, "Transaction.Send fails")
				}
			}
			done++
		}()
	}
	time.Sleep(100 * ms)
	vrt.Quiesce()
	vrt.Assert(done == g, "a call blocks")
	next := make([]int, g)
	var begun, acked []string
	for _, f := range x.c.frames() {
		switch f.cmd {
		case "BEGIN":
			begun = append(begun, f.get("transaction"))
		case "ACK":
			acked = append(acked, f.get("transaction"))
		case "SEND":
			i := int(f.get("destination")[1] - 'a')
			vrt.Assert(i >= 0 && i < g && string(f.body) == f.get("destination")[1:] && f.get("content-length") == "1", "a frame is a mixture of two")
			vrt.Assert(f.get("content-type") == strconv.Itoa(next[i]), "the frames of one go-routine are lost or sent in another order")
			next[i]++
			if f.has("transaction") {
				known := false
				for _, t := range begun {
					known = known || t == f.get("transaction")
				}
				vrt.Assert(known, "a frame of a transaction before its BEGIN")
			}
		default:
			vrt.Assert(false, "an unexpected frame")
		}
	}
	for i := range next {
		vrt.Assert(next[i] == k, "a frame is lost")
	}
	for _, t := range acked {
		known := false
		for _, b := range begun {
			known = known || b == t
		}
		vrt.Assert(known, "a frame of a transaction before its BEGIN")
	}
	vrt.Reach("end")
}
