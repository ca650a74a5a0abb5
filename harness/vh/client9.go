package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// Mixed: go-routines that use one connection, its subscriptions, a transaction
// and a message at once, in any way, while the server sends. Every call
// returns, whatever the others do; with the race model on, none disturbs
// another's memory.
func Mixed() {
	vrt.Delays(0)
	x := newCli("1.2", nil, stomp.ConnOpt.WithStats(), stomp.ConnOpt.HeartBeat(0, 0))
	a, err := x.conn.Subscribe("/a", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	b, err := x.conn.Subscribe("/b", stomp.AckClient)
	vrt.Assert(err == nil, "Subscribe fails")
	tx := x.conn.Begin()
	vrt.Quiesce()
	x.message(b.Id(), []byte("m"), kv{"ack", "1"})
	m := <-b.C
	vrt.Quiesce()
	x.c.frames()
	vrt.Delays(-1)

	g := vrt.Param("g", 2)
	ends := 0 // calls that end the connection
	kinds := make([][]int, g)
	for i := range kinds {
		for j := 0; j < vrt.Param("k", 1); j++ {
			kind := vrt.Choose("call"+strconv.Itoa(i)+strconv.Itoa(j), 17)
			kinds[i] = append(kinds[i], kind)
			if kind == 12 || kind == 13 {
				ends++
			}
		}
	}
	done := make([]bool, g)
	for i := range kinds {
		i := i
		go func() {
			for _, kind := range kinds[i] {
				ok := true
				switch kind {
				case 0:
					ok = x.conn.Send("/d", "", []byte("x")) == nil
				case 1:
					ok = x.conn.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt) == nil
				case 2:
					s, err := x.conn.Subscribe("/d", stomp.AckAuto)
					ok = err == nil
					if ok {
						s.Active()
					}
				case 3:
					ok = a.Unsubscribe() == nil
				case 4:
					t := x.conn.Begin()
					t.Send("/d", "", []byte("x"))
					t.Commit()
				case 5:
					tx.Send("/d", "", []byte("x"))
				case 6:
					tx.Commit()
				case 7:
					tx.CommitWithReceipt()
				case 8:
					ok = x.conn.Ack(m) == nil
				case 9:
					tx.Nack(m)
				case 10:
					st := x.conn.Stats()
					vrt.Assert(st.WritesSent >= 3, "Stats loses calls")
				case 11:
					vrt.Assert(x.conn.Version() == stomp.V12 && x.conn.Session() == "" && x.conn.Server() == "", "Version, Session or Server is wrong")
				case 12:
					x.conn.Disconnect()
				case 13:
					x.conn.MustDisconnect()
				case 14:
					<-a.C
				case 15:
					vrt.Assert(a.Id() != b.Id() && a.Destination() == "/a" && a.AckMode() == stomp.AckAuto, "the subscription changes")
					a.Active()
				case 16:
					tx.Abort()
				}
				vrt.Assert(ok || ends > 0 || kind == 3, "a call fails because of another")
			}
			done[i] = true
		}()
	}
	// the server
	x.message(a.Id(), []byte("1"))
	x.message(a.Id(), []byte("2"))
	if vrt.Choose("loss", vrt.Param("losses", 2)) == 1 {
		ends++
		x.c.hangup()
	}
	for n := 0; n < 4*g; n++ {
		vrt.Quiesce()
		for _, f := range x.c.frames() {
			if r := f.get("receipt"); r != "" && !x.c.down() && len(x.c.in) < 60 && ends == 0 {
				x.c.feed(enc("RECEIPT", nil, "receipt-id", r))
			}
		}
	}
	if ends > 0 {
		time.Sleep(2 * time.Minute)
		vrt.Quiesce()
	}
	for i := range done {
		vrt.Assert(done[i], "a call does not return")
	}
	if ends == 0 {
		vrt.Reach("alive")
	} else {
		vrt.Reach("ended")
	}
	vrt.Reach("end")
}
