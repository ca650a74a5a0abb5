package vh

import (
	"io"
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C26: a received message as an io.Reader
// ---------------------------------------------------------------------------

// MessageRead: a message with an arbitrary body arrives over a connection and
// is read with any sequence of Read and ReadByte calls; a second message is
// there to see that they do not disturb each other.
func MessageRead() {
	x := newCli("1.2", nil)
	sub, err := x.conn.Subscribe("/d", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	x.c.frames()
	var msgs []*stomp.Message
	var want [][]byte
	for i := 0; i < 2; i++ {
		s := strconv.Itoa(i)
		n := 1
		if i == 0 {
			n = vrt.Choose("len", vrt.Param("blen", 4)+1)
		}
		body := vrt.Bytes("body"+s, n)
		x.message(sub.Id(), body, kv{"content-length", strconv.Itoa(n)})
		vrt.Quiesce()
		m := <-sub.C
		vrt.Assert(m != nil && m.Err == nil, "no message")
		msgs = append(msgs, m)
		want = append(want, body)
	}
	var _ io.Reader = msgs[0]
	var _ io.ByteReader = msgs[0]
	pos := []int{0, 0}
	// bytes that the program has already do not change by reading on
	held := [][]byte{msgs[0].Body, msgs[1].Body}
	for i := 0; i < vrt.Param("n", 4); i++ {
		s := strconv.Itoa(i)
		k := 0
		if vrt.Param("both", 1) == 1 {
			k = vrt.Choose("msg"+s, 2)
		}
		m, rest := msgs[k], want[k][pos[k]:]
		op := vrt.Choose("op"+s, 2+vrt.Param("sizes", 4))
		if op == 0 {
			b, err := m.ReadByte()
			if len(rest) == 0 {
				vrt.Assert(err == io.EOF, "ReadByte at the end does not report io.EOF")
				vrt.Reach("eof")
				continue
			}
			vrt.Assert(err == nil, "ReadByte fails before the end of the body")
			vrt.Assert(b == rest[0], "ReadByte yields another byte")
			pos[k]++
			vrt.Reach("byte")
			continue
		}
		p := make([]byte, op-1+2)
		for j := range p {
			p[j] = 0xa5
		}
		n, err := m.Read(p[:op-1])
		vrt.Assert(n >= 0 && n <= op-1, "Read reports a length that is not possible")
		if len(rest) == 0 {
			vrt.Assert(n == 0, "Read yields bytes after the end of the body")
			vrt.Assert(err == io.EOF || err == nil && op == 1, "Read at the end does not report io.EOF")
		} else {
			vrt.Assert(n <= len(rest), "Read yields bytes after the end of the body")
			vrt.Assert(n > 0 || op == 1, "Read makes no progress")
			vrt.Assert(err == nil || err == io.EOF && n == len(rest), "Read fails before the end of the body")
			vrt.Assert(vrt.EqBytes(p[:n], rest[:n]), "Read yields other bytes")
			vrt.Reach("read")
		}
		for j := n; j < len(p); j++ {
			vrt.Assert(j < op-1 || p[j] == 0xa5, "Read writes behind the buffer")
		}
		pos[k] += n
	}
	// what is left is what has not been read
	for k, m := range msgs {
		rest, err := readAll(m)
		vrt.Assert(err == nil && vrt.EqBytes(rest, want[k][pos[k]:]), "the rest of a message is not what has not been read yet")
		vrt.Assert(vrt.EqBytes(held[k], want[k]), "Read changes bytes of the body that the program holds")
	}
	vrt.Reach("end")
}

func readAll(r io.Reader) ([]byte, error) {
	var all []byte
	p := make([]byte, 3)
	for i := 0; i < 1000; i++ {
		n, err := r.Read(p)
		all = append(all, p[:n]...)
		if err == io.EOF {
			return all, nil
		}
		if err != nil {
			return all, err
		}
	}
	return all, io.ErrNoProgress
}

// ShouldAck: exactly the messages of subscriptions that acknowledge say so,
// and an ACK frame is sent for exactly these.
func ShouldAck() {
	x := newCli([]string{"1.0", "1.1", "1.2"}[vrt.Choose("ver", 3)], nil)
	own := &stomp.Message{Body: vrt.Bytes("own", 1)}
	vrt.Assert(!own.ShouldAck(), "a message that has not been received wants to be acknowledged")
	modes := []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}
	for i := 0; i < 2; i++ {
		s := strconv.Itoa(i)
		mode := modes[vrt.Choose("mode"+s, 3)]
		sub, err := x.conn.Subscribe("/d", mode)
		vrt.Assert(err == nil && sub.AckMode() == mode, "Subscribe fails")
		vrt.Quiesce()
		fs := x.c.frames()
		name := map[stomp.AckMode]string{stomp.AckAuto: "auto", stomp.AckClient: "client", stomp.AckClientIndividual: "client-individual"}[mode]
		vrt.Assert(len(fs) == 1 && fs[0].get("ack") == name, "SUBSCRIBE has another ack mode")
		vrt.Assert(mode.String() == name && mode.ShouldAck() == (mode != stomp.AckAuto), "AckMode describes itself wrongly")
		x.message(sub.Id(), nil, kv{"ack", vrt.String("a"+s, 1)})
		vrt.Quiesce()
		m := <-sub.C
		vrt.Assert(m != nil && m.Err == nil, "no message")
		vrt.Assert(m.ShouldAck() == (mode != stomp.AckAuto), "ShouldAck is wrong")
		vrt.Assert(x.conn.Ack(m) == nil, "Ack fails")
		vrt.Quiesce()
		fs = x.c.frames()
		vrt.Assert(len(fs) == 1 == m.ShouldAck(), "Ack and ShouldAck do not agree")
	}
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C27: statistics
// ---------------------------------------------------------------------------

// Stats: any sequence of calls and of frames from the server; the numbers are
// those of the frames on the wire.
func Stats() {
	on := vrt.Choose("on", 2) == 1
	opts := []connOpt{stomp.ConnOpt.HeartBeat(time.Hour, time.Hour), stomp.ConnOpt.HeartBeatError(0)}
	if on {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	x := newCli("1.2", []string{"heart-beat", "0,10000"}, opts...)
	var writes, reads int64
	check := func() {
		vrt.Quiesce()
		for _, f := range x.c.take() {
			if !f.beat {
				writes++
			}
		}
		st := x.conn.Stats()
		if on {
			vrt.Assert(st.WritesSent == writes, "WritesSent is not the number of frames sent")
			vrt.Assert(st.ReadsReceived == reads, "ReadsReceived is not the number of frames received")
		} else {
			vrt.Assert(st.WritesSent == 0 && st.ReadsReceived == 0, "statistics although nobody asked for them")
		}
		vrt.Assert(st.CurrentWriteChanSize == 0, "frames wait although the server reads")
		vrt.Assert(st.CurrentReadChanSize == 0, "frames wait although nothing is in their way")
	}
	check()
	var subs []*stomp.Subscription
	var txs []*stomp.Transaction
	var msgs []*stomp.Message
	last := ""
	gone := false
	for i := 0; i < vrt.Param("n", 3); i++ {
		s := strconv.Itoa(i)
		switch vrt.Choose("op"+s, 13) {
		case 0:
			err := x.conn.Send("/d", "text/plain", vrt.Bytes("b"+s, 1))
			vrt.Assert((err == nil) == !gone, "Send")
		case 1:
			sub, err := x.conn.Subscribe("/d", stomp.AckClient)
			vrt.Assert((err == nil) == !gone, "Subscribe")
			if err == nil {
				subs = append(subs, sub)
				last = sub.Id()
			}
		case 2:
			if len(subs) == 0 || gone {
				continue
			}
			x.message(subs[0].Id(), nil, kv{"ack", "1"})
			reads++
			vrt.Quiesce()
			if m := <-subs[0].C; m.Err == nil {
				msgs = append(msgs, m)
			}
		case 3, 4:
			if len(msgs) == 0 {
				continue
			}
			var err error
			if vrt.Choose("nack"+s, 2) == 1 {
				err = x.conn.Nack(msgs[0])
			} else {
				err = x.conn.Ack(msgs[0])
			}
			vrt.Assert((err == nil) == !gone, "Ack or Nack")
		case 5:
			if gone {
				continue
			}
			txs = append(txs, x.conn.Begin())
		case 6:
			if len(txs) > 0 && !gone {
				vrt.Assert(txs[0].Send("/d", "", nil) == nil, "Transaction.Send")
			}
		case 7:
			if len(txs) > 0 && !gone {
				if vrt.Choose("abort"+s, 2) == 1 {
					vrt.Assert(txs[0].Abort() == nil, "Abort")
				} else {
					vrt.Assert(txs[0].Commit() == nil, "Commit")
				}
				txs = txs[1:]
			}
		case 8:
			if gone {
				continue
			}
			// a heart-beat, or a frame nobody waits for
			switch vrt.Choose("what"+s, 3) {
			case 0:
				x.c.feed([]byte("\n"))
			case 1:
				x.message(nobody, nil)
			default:
				x.c.feed(enc("RECEIPT", nil, "receipt-id", "none"+last))
			}
			reads++
			vrt.Reach("ignored")
		case 9: // refused calls send nothing
			err := x.conn.Send("/d", "", nil, stomp.SubscribeOpt.Header("a", "b"))
			vrt.Assert(err != nil, "a wrong option is accepted")
			if !gone {
				_, err = x.conn.Subscribe("/d", stomp.AckAuto, func(*frame.Frame) error { return io.ErrNoProgress })
				vrt.Assert(err != nil, "a failing option is ignored")
				if len(subs) > 0 {
					vrt.Assert(subs[0].Unsubscribe(func(*frame.Frame) error { return io.ErrNoProgress }) != nil, "a failing option is ignored")
				}
				if len(txs) > 0 {
					vrt.Assert(txs[0].Send("/d", "", nil, stomp.SubscribeOpt.Header("a", "b")) != nil, "a wrong option is accepted")
				}
			}
			vrt.Assert(x.conn.Nack(&stomp.Message{}) != nil, "a message is acknowledged that has not been received")
		case 10: // heart-beats of the client do not count
			time.Sleep(11 * time.Second)
			vrt.Reach("beat")
		case 11:
			if len(subs) == 0 || gone {
				continue
			}
			sub := subs[0]
			subs = subs[1:]
			msgs = nil
			done := false
			go func() {
				vrt.Assert(sub.Unsubscribe() == nil, "Unsubscribe fails")
				done = true
			}()
			vrt.Quiesce()
			fs := x.c.frames()
			vrt.Assert(len(fs) == 1, "Unsubscribe does not send a frame")
			writes++
			x.c.feed(enc("RECEIPT", nil, "receipt-id", fs[0].get("receipt")))
			reads++
			vrt.Quiesce()
			vrt.Assert(done, "Unsubscribe does not return")
		case 12:
			if gone {
				vrt.Assert(x.conn.Disconnect() == nil, "a second Disconnect fails")
				break
			}
			gone = true
			msgs = nil
			done := false
			go func() {
				vrt.Assert(x.conn.Disconnect() == nil, "Disconnect fails")
				done = true
			}()
			vrt.Quiesce()
			fs := x.c.frames()
			vrt.Assert(len(fs) == 1, "Disconnect does not send a frame")
			writes++
			x.c.feed(enc("RECEIPT", nil, "receipt-id", fs[0].get("receipt")))
			reads++
			vrt.Quiesce()
			vrt.Assert(done, "Disconnect does not return")
			vrt.Reach("gone")
		}
		check()
	}
	if on && writes > 0 && reads > 0 {
		vrt.Reach("counted")
	}
	vrt.Reach("end")
}

// StatsStalled: the server does not read: the numbers of waiting frames.
func StatsStalled() {
	x := newCli("1.2", nil, stomp.ConnOpt.WithStats(), stomp.ConnOpt.WriteChannelCapacity(4), stomp.ConnOpt.MsgSendTimeout(time.Second), stomp.ConnOpt.ReadChannelCapacity(3))
	x.c.stall = make(chan struct{})
	n := vrt.Choose("n", 5)
	for i := 0; i < n; i++ {
		vrt.Assert(x.conn.Send("/d", "", nil) == nil, "Send fails although there is room")
	}
	k := vrt.Choose("k", 4)
	for i := 0; i < k; i++ {
		x.message(nobody, nil)
	}
	vrt.Quiesce()
	st := x.conn.Stats()
	vrt.Assert(st.WritesSent == int64(n), "WritesSent is not the number of calls")
	if n > 0 {
		// one frame is being written; everything else waits
		vrt.Assert(st.CurrentWriteChanSize == n-1, "CurrentWriteChanSize is not the number of waiting frames")
		vrt.Assert(st.ReadsReceived == int64(k), "ReadsReceived")
		vrt.Assert(st.CurrentReadChanSize == k, "CurrentReadChanSize is not the number of waiting frames")
		vrt.Reach("waiting")
	}
	close(x.c.stall)
	x.c.mu.Lock()
	x.c.stall = nil
	x.c.mu.Unlock()
	vrt.Quiesce()
	st = x.conn.Stats()
	vrt.Assert(st.CurrentWriteChanSize == 0 && st.CurrentReadChanSize == 0, "frames still wait")
	vrt.Assert(len(x.c.frames()) == n, "frames are lost")
	vrt.Reach("end")
}
