package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
)

// ---------------------------------------------------------------------------
// C08: heart-beats of the client
// ---------------------------------------------------------------------------

// beatCli connects: the client offers cx,cy (arbitrary, not always whole
// milliseconds), the server answers sx,sy.
// Only one direction is arbitrary: the other one is 0.
func beatCli(sends bool) (x *cli, cx, cy, sx, sy, slack time.Duration, mult int) {
	offers := []time.Duration{0, 1 * ms, 99 * ms, 500*ms + 999*time.Microsecond, time.Minute}
	cx, cy = offers[vrt.Choose("cx", len(offers))], offers[vrt.Choose("cy", len(offers))]
	sxs, sys := "0", "0"
	vx, vy := 0, 0
	if sends {
		sys, vy = digits("sy", vrt.Param("d", 2))
	} else {
		sxs, vx = digits("sx", vrt.Param("d", 2))
	}
	sx, sy = time.Duration(vx)*ms, time.Duration(vy)*ms
	slack = []time.Duration{0, 7 * ms, 5 * time.Second}[vrt.Choose("slack", 3)]
	mult = 1 + vrt.Choose("mult", 3)
	opts := []connOpt{stomp.ConnOpt.HeartBeatError(slack)}
	if cx != time.Minute || cy != time.Minute {
		opts = append(opts, stomp.ConnOpt.HeartBeat(cx, cy))
	}
	if mult > 1 {
		opts = append(opts, stomp.ConnOpt.HeartBeatGracePeriodMultiplier(float64(mult)))
	}
	x = newCli("1.2", []string{"heart-beat", sxs + "," + sys}, opts...)
	return
}

func longer(a, b time.Duration) time.Duration {
	if vrt.ConcreteBool(a > b) {
		return a
	}
	return b
}

// ClientBeats: what an idle client sends, with a SEND somewhere in between.
func ClientBeats() {
	x, cx, cy, sx, sy, slack, _ := beatCli(true)
	_, _ = cy, sx
	if sy == 0 {
		time.Sleep(400 * time.Second)
		vrt.Quiesce()
		vrt.Assert(len(x.c.take()) == 0, "heart-beats although the server wants none")
		vrt.Assert(!x.c.down(), "a healthy connection is closed")
		vrt.Reach("none")
		return
	}
	if cx == 0 {
		time.Sleep(5 * sy)
		vrt.Quiesce()
		vrt.Assert(!x.c.down(), "a healthy connection is closed")
		vrt.Reach("unable")
		return
	}
	d := longer(cx, sy)
	// not more than about ten beats
	vrt.Assume(cx <= 2*sy)
	vrt.Assume(vrt.Or(slack >= sy, 2*slack <= sy))
	t0 := time.Now()
	first := len(x.c.outAt) - 1
	switch traffic := vrt.Choose("traffic", 4); traffic {
	case 1:
		at := time.Duration(vrt.IntRange("at", 0, 1000)) * ms
		vrt.Assume(at < 2*d)
		time.Sleep(at)
		vrt.Assert(x.conn.Send("/queue/a", "", nil) == nil, "Send fails")
		vrt.Quiesce()
	case 2, 3:
		// what the server sends, or calls that send nothing, do not count
		for i := 0; i < 4; i++ {
			time.Sleep(d * 5 / 8)
			if traffic == 2 {
				x.message(nobody, nil)
				x.c.feed([]byte("\n"))
			} else {
				sub, err := x.conn.Subscribe("/d", stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", "/temp-queue/"+strconv.Itoa(i)))
				vrt.Assert(err == nil, "Subscribe fails")
				vrt.Assert(sub.Unsubscribe() == nil, "Unsubscribe fails")
			}
			vrt.Quiesce()
		}
		vrt.Reach("one-way")
	}
	time.Sleep(time.Duration(vrt.Param("beats", 3))*d - time.Since(t0) + ms)
	vrt.Quiesce()
	vrt.Assert(!x.c.down(), "a healthy connection is closed")
	at := x.c.outAt[first:]
	for i := 1; i < len(at); i++ {
		vrt.Assert(at[i].Sub(at[i-1]) <= d, "the client is silent for longer than agreed")
	}
	vrt.Assert(time.Since(at[len(at)-1]) <= d, "the client is silent for longer than agreed")
	beats := 0
	for _, f := range x.c.take() {
		if f.beat {
			beats++
		} else {
			vrt.Assert(f.cmd == "SEND", "an unexpected frame")
		}
	}
	vrt.Assert(beats > 0, "no heart-beats")
	vrt.Reach("beats")
}

// ClientTimeout: a server that sends something at an arbitrary interval and
// then falls silent.
func ClientTimeout() {
	x, _, cy, sx, sy, slack, mult := beatCli(false)
	_ = sy
	sub, err := x.conn.Subscribe("/topic/t", stomp.AckAuto)
	vrt.Assert(err == nil, "Subscribe fails")
	vrt.Quiesce()
	if sx == 0 || cy == 0 {
		// one of them does not want heart-beats
		time.Sleep(400 * time.Second)
		vrt.Quiesce()
		vrt.Assert(!x.c.down() && len(sub.C) == 0, "a server without heart-beats is taken for dead")
		vrt.Reach("none")
		return
	}
	d := (longer(sx, cy) + slack) * time.Duration(mult)
	step := time.Duration(vrt.IntRange("step", 1, 200000)) * ms
	vrt.Assume(step < d)
	vrt.Assume(step > d/2)
	n := 0
	for i := 0; i < vrt.Param("n", 2); i++ {
		time.Sleep(step)
		vrt.Quiesce()
		vrt.Assert(!x.c.down(), "a server that is not silent is taken for dead")
		switch vrt.Choose("what"+strconv.Itoa(i), vrt.Param("whats", 4)) {
		case 0:
			x.c.feed([]byte("\n"))
		case 1:
			x.c.feed(enc("MESSAGE", nil, "subscription", sub.Id(), "message-id", "m", "destination", "/topic/t"))
			n++
		case 2:
			x.c.feed(enc("RECEIPT", nil, "receipt-id", "none"))
		case 3:
			// a frame that takes its time
			x.c.feed([]byte("MESSAGE\nsubscription:" + sub.Id() + "\n"))
			time.Sleep(step)
			x.c.feed([]byte("message-id:m\n"))
			time.Sleep(step)
			x.c.feed([]byte("destination:/topic/t\n\n\x00"))
			n++
		}
		vrt.Quiesce()
	}
	time.Sleep(d - ms)
	vrt.Quiesce()
	vrt.Assert(!x.c.down() && len(sub.C) == n, "the server is taken for dead too early")
	time.Sleep(2 * ms)
	vrt.Quiesce()
	vrt.Assert(x.c.down(), "a server that is silent for too long is not noticed")
	for ; n > 0; n-- {
		m := <-sub.C
		vrt.Assert(m != nil && m.Err == nil, "a message is lost")
	}
	m := <-sub.C
	vrt.Assert(m != nil && m.Err != nil, "the subscription is not told about the dead server")
	vrt.Reach("dropped")
}
