package vh

import (
	"strconv"
	"time"

	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
)

// ---------------------------------------------------------------------------
// C15: the gate
// ---------------------------------------------------------------------------

// refused: the connection got exactly one ERROR frame (none is fine where the
// bytes are no frame at all), nothing after it, and is closed.
func (p *peer) refused(what string) {
	errs := 0
	for _, f := range p.c.frames() {
		vrt.Assert(errs == 0, "frames after the ERROR frame")
		vrt.Assert(f.cmd == "ERROR", what+": answered with "+f.cmd)
		vrt.Assert(f.has("message"), "an ERROR without message header")
		errs++
	}
	vrt.Assert(errs == 1, what+": not answered with an ERROR frame")
	vrt.Assert(p.c.down(), what+": the connection stays open")
}

// GateFirst: the first frame of a connection is any of the 15 commands; more
// frames follow in the same packet.
func GateFirst() {
	w := newWorld(nil)
	w.dests = []string{"/topic/t", "/queue/q"}
	obs := w.connect("obs", "1.2")
	obs.subscribe("o", 0, "")
	obs.subscribe("q", 1, "")
	vrt.Quiesce()
	p := w.dial("x")
	cmd := allCommands[vrt.Choose("cmd", len(allCommands))]
	hs := []string{"accept-version", "1.2", "host", "h"}
	if cmd != "CONNECT" && cmd != "STOMP" {
		hs = append(hs, "destination", w.dests[vrt.Choose("dest", 2)], "id", "i", "transaction", "t", "message-id", "1", "subscription", "i")
		if vrt.Choose("tx", 2) == 0 {
			hs = append(append([]string(nil), hs[:8]...), hs[10:]...)
		}
	}
	if vrt.Choose("receipt", 2) == 1 {
		hs = append(hs, "receipt", vrt.String("r", 1))
	}
	p.c.feed(append(enc(cmd, nil, hs...), enc("SEND", []byte("1"), "destination", "/topic/t")...))
	vrt.Quiesce()
	if (cmd == "CONNECT" || cmd == "STOMP") && len(hs) == 4 {
		fs := p.c.frames()
		vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED" && fs[0].get("version") == "1.2", "CONNECT is not answered with CONNECTED")
		vrt.Assert(!p.c.down(), "an accepted connection is closed")
		got := obs.c.frames()
		vrt.Assert(len(got) == 1 && got[0].cmd == "MESSAGE", "a frame right after CONNECT is not processed")
		vrt.Reach("connected")
		return
	}
	p.refused("a connection that does not start with a valid CONNECT frame")
	vrt.Assert(len(obs.c.frames()) == 0, "a frame was processed before CONNECT")
	vrt.Assert(!obs.c.down(), "another connection is closed")
	vrt.Reach("refused")
}

// GateVersion: accept-version is an arbitrary text.
func GateVersion() {
	w := newWorld(nil)
	p := w.dial("x")
	cmd := []string{"CONNECT", "STOMP"}[vrt.Choose("cmd", 2)]
	var hs []string
	best := ""
	n := vrt.Param("n", 3)
	if n >= 0 {
		av := []byte(vrt.String("av", n))
		for i := 3; i < n; i += 4 {
			if vrt.Param("list", 1) == 1 {
				av[i] = ','
			}
		}
		for i := 1; i < n && vrt.Param("dots", 0) == 1; i += 4 {
			av[i] = '.'
		}
		for i := range av {
			vrt.Assume(av[i] != ' ')
		}
		hs = append(hs, "accept-version", string(av))
		from := 0
		for i := 0; i <= n; i++ {
			if i == n || av[i] == ',' {
				v := string(av[from:i])
				from = i + 1
				switch {
				case v == "1.0":
					if best == "" {
						best = "1.0"
					}
				case v == "1.1":
					if best < "1.1" {
						best = "1.1"
					}
				case v == "1.2":
					best = "1.2"
				}
			}
		}
	}
	p.c.feed(enc(cmd, nil, hs...))
	vrt.Quiesce()
	if best != "1.1" && best != "1.2" {
		p.refused("no version in common")
		vrt.Reach("refused")
		return
	}
	fs := p.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "CONNECT is not answered with CONNECTED")
	vrt.Assert(fs[0].get("version") == best, "not the highest version both sides support")
	vrt.Assert(!p.c.down(), "an accepted connection is closed")
	vrt.Reach("connected")
}

type auth struct {
	login, pass string
	calls       [][2]string
}

func (a *auth) Authenticate(login, pass string) bool {
	a.calls = append(a.calls, [2]string{login, pass})
	return vrt.EqStr(login, a.login) && vrt.EqStr(pass, a.pass)
}

// GateAuth: an authenticator that knows one arbitrary login and passcode; the
// client offers arbitrary ones and sends a message right away.
func GateAuth() {
	n := vrt.Param("n", 2)
	au := &auth{login: vrt.String("login", vrt.Choose("llen", n+1)), pass: vrt.String("pass", vrt.Choose("plen", n+1))}
	w := newWorld(&server.Server{Authenticator: au})
	w.dests = []string{"/topic/t"}
	// the observer knows the password
	obs := w.dial("obs")
	obs.c.feed(enc("CONNECT", nil, "accept-version", "1.2", "login", au.login, "passcode", au.pass))
	obs.subscribe("o", 0, "")
	vrt.Quiesce()
	fs := obs.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "the right login and passcode are refused")
	vrt.Assert(len(au.calls) == 1, "the authenticator is not asked exactly once")
	p := w.dial("x")
	var hs []string
	login, pass := "", ""
	if vrt.Choose("haslogin", 2) == 1 {
		login = vrt.String("l", vrt.Choose("l2", n+1))
		hs = append(hs, "login", login)
	}
	if vrt.Choose("haspass", 2) == 1 {
		pass = vrt.String("p", vrt.Choose("p2", n+1))
		hs = append(hs, "passcode", pass)
	}
	hs = append(hs, "accept-version", "1.1")
	p.c.feed(append(enc("CONNECT", nil, hs...), enc("SEND", []byte("1"), "destination", "/topic/t")...))
	vrt.Quiesce()
	time.Sleep(3 * time.Second) // a refusal may be slowed down
	vrt.Quiesce()
	vrt.Assert(len(au.calls) == 2, "the authenticator is not asked exactly once")
	vrt.Assert(vrt.EqStr(au.calls[1][0], login) && vrt.EqStr(au.calls[1][1], pass), "the authenticator gets another login or passcode than the client sent")
	if vrt.EqStr(login, au.login) && vrt.EqStr(pass, au.pass) {
		fs := p.c.frames()
		vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "the right login and passcode are refused")
		vrt.Assert(len(obs.c.frames()) == 1, "a frame right after CONNECT is not processed")
		vrt.Reach("accepted")
		return
	}
	p.refused("a wrong login or passcode")
	vrt.Assert(len(obs.c.frames()) == 0, "a frame of a client that is not authenticated was processed")
	vrt.Assert(!obs.c.down(), "another connection is closed")
	vrt.Reach("refused")
}

// GateLater: a connected client sends a command that only the server may
// send, or connects again.
func GateLater() {
	w := newWorld(nil)
	w.dests = []string{"/topic/t", "/queue/q"}
	obs := w.connect("obs", "1.2")
	obs.subscribe("o", 0, "")
	vrt.Quiesce()
	p := w.connect("x", []string{"1.1", "1.2"}[vrt.Choose("ver", 2)])
	if vrt.Choose("sub", 2) == 1 {
		p.subscribe("s", 0, "")
		vrt.Quiesce()
	}
	cmd := []string{"CONNECT", "STOMP", "CONNECTED", "MESSAGE", "RECEIPT", "ERROR"}[vrt.Choose("cmd", 6)]
	hs := []string{"accept-version", "1.2", "destination", "/topic/t", "message-id", "1", "subscription", "s", "receipt-id", "1"}
	if vrt.Choose("bare", 2) == 1 {
		hs = nil
	}
	p.c.feed(append(enc(cmd, []byte("x"), hs...), enc("SEND", []byte("1"), "destination", "/topic/t")...))
	vrt.Quiesce()
	p.refused("a " + cmd + " frame of a connected client")
	vrt.Assert(len(obs.c.frames()) == 0, "a frame after a protocol error was processed")
	// and the others go on
	m := w.newMsg(obs, 0)
	obs.sendFrame(m)
	vrt.Quiesce()
	vrt.Assert(len(obs.c.frames()) == 1, "another client is no longer served")
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C16: nothing a client sends harms the server or other clients
// ---------------------------------------------------------------------------

// served: both the old witness and a new client still get everything.
func (w *world) served(obs *peer) {
	vrt.Assert(!obs.c.down(), "another client's connection is closed")
	obs.c.frames()
	obs.feed("SEND", []byte("w"), "destination", "/topic/w", "receipt", "wr")
	q := w.connect("late", "1.2")
	q.c.feed(enc("SUBSCRIBE", nil, "id", "1", "destination", "/queue/w"))
	obs.feed("SEND", []byte("v"), "destination", "/queue/w")
	vrt.Quiesce()
	got, rc := 0, 0
	for _, f := range obs.c.frames() {
		if f.cmd == "MESSAGE" && f.get("destination") == "/topic/w" {
			got++
		}
		if f.cmd == "RECEIPT" && f.get("receipt-id") == "wr" {
			rc++
		}
	}
	vrt.Assert(got == 1 && rc == 1, "another client is no longer served")
	fs := q.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "MESSAGE" && string(fs[0].body) == "v", "a new client is not served")
}

func (w *world) witness() *peer {
	obs := w.connect("obs", "1.2")
	obs.c.feed(enc("SUBSCRIBE", nil, "id", "w", "destination", "/topic/w"))
	vrt.Quiesce()
	return obs
}

// RobustFrames: after a useful prefix a client sends n frames of any command
// with any combination of headers, valid, wrong, repeated or missing.
func RobustFrames() {
	n := vrt.Param("n", 1)
	w := newWorld(nil)
	obs := w.witness()
	p := w.dial("x")
	pre := vrt.Choose("pre", vrt.Param("pres", 3))
	if pre > 0 {
		p.c.feed(enc("CONNECT", nil, "accept-version", []string{"", "1.1", "1.2"}[pre]))
		p.c.feed(enc("SUBSCRIBE", nil, "id", "s", "destination", "/queue/q", "ack", "client"))
		p.c.feed(enc("SUBSCRIBE", nil, "id", "t", "destination", "/topic/t"))
		p.c.feed(enc("BEGIN", nil, "transaction", "x"))
		vrt.Quiesce()
		// message-id 1 waits for its acknowledgement
		obs.c.feed(enc("SEND", []byte("m"), "destination", "/queue/q"))
	}
	vrt.Quiesce()
	p.c.frames()
	names := []string{"destination", "id", "transaction", "ack", "message-id", "subscription", "receipt", "accept-version", "heart-beat"}
	values := [][]string{{"/queue/q", "/topic/t"}, {"s", "1"}, {"x"}, {"client", "1"}, {"1"}, {"s"}, {"r"}, {"1.2"}, {"1,1"}}
	for i := 0; i < n; i++ {
		is := strconv.Itoa(i)
		var hs []string
		cmd := allCommands[vrt.Choose("cmd"+is, len(allCommands))]
		k := vrt.Choose("nh"+is, vrt.Param("nh", 2)+1)
		for j := 0; j < k; j++ {
			js := is + "." + strconv.Itoa(j)
			h := vrt.Choose("h"+js, vrt.Param("names", 7))
			v := vrt.Choose("v"+js, len(values[h])+1)
			if v < len(values[h]) {
				hs = append(hs, names[h], values[h][v])
			} else {
				hs = append(hs, names[h], vrt.String("x"+js, vrt.Choose("l"+js, vrt.Param("len", 1)+1)))
			}
		}
		p.c.feed(enc(cmd, nil, hs...))
	}
	vrt.Quiesce()
	time.Sleep(3 * time.Second)
	vrt.Quiesce()
	p.c.take() // well-formed
	if vrt.Param("hangup", 1) == 1 && vrt.Choose("bye", 2) == 1 {
		p.c.hangup()
		vrt.Quiesce()
	}
	w.served(obs)
	vrt.Reach("end")
}

// RobustBytes: arbitrary bytes instead of, or after, frames.
func RobustBytes() {
	w := newWorld(nil)
	obs := w.witness()
	p := w.dial("x")
	var b []byte
	switch vrt.Param("where", 0) {
	case 1:
		b = enc("CONNECT", nil, "accept-version", "1.2")
	case 2:
		b = append(enc("CONNECT", nil, "accept-version", "1.2"), "SEND\ndestination:/topic/w\n"...)
	case 3:
		b = append(enc("CONNECT", nil, "accept-version", "1.2"), "SUBSCRIBE\ndestination:/topic/w\nack:"...)
	case 4:
		b = []byte("CONNECT\naccept-version:1.2\nheart-beat:")
	}
	b = append(b, vrt.Bytes("b", vrt.Param("n", 4))...)
	switch vrt.Param("where", 0) {
	case 3:
		b = append(b, "\nid:1\n\n\x00"...)
	case 4:
		b = append(b, "\n\n\x00"...)
	}
	p.c.feed(b)
	vrt.Quiesce()
	if vrt.Choose("bye", 2) == 1 {
		p.c.hangup()
		vrt.Quiesce()
		vrt.Assert(p.c.down(), "the server keeps a connection whose client is gone")
	}
	p.c.take()
	w.served(obs)
	vrt.Reach("end")
}

// RobustBulk: a client fills every buffer there is: a transaction of n
// messages to its own topic and queue, committed at once.
func RobustBulk() {
	vrt.Delays(0)
	w := newWorld(nil)
	obs := w.witness()
	p := w.connect("x", "1.2")
	n := vrt.Param("n", 160)
	p.c.feed(enc("SUBSCRIBE", nil, "id", "t", "destination", "/topic/t"))
	p.c.feed(enc("SUBSCRIBE", nil, "id", "q", "destination", "/queue/q"))
	// where the messages go: the topic, the queue, alternating
	to := vrt.Choose("to", 3)
	tx := vrt.Choose("tx", 2) == 1
	var b []byte
	if tx {
		b = enc("BEGIN", nil, "transaction", "x")
	}
	for i := 0; i < n; i++ {
		hs := []string{"destination", "/topic/t"}
		if to == 1 || to == 2 && i&1 == 1 {
			hs[1] = "/queue/q"
		}
		if tx {
			hs = append(hs, "transaction", "x")
		}
		b = append(b, enc("SEND", []byte{byte(i)}, append(hs, "content-length", "1")...)...)
	}
	if tx {
		b = append(b, enc("COMMIT", nil, "transaction", "x", "receipt", "done")...)
	}
	vrt.Delays(-1)
	p.c.feed(b)
	vrt.Quiesce()
	vrt.Delays(0)
	next := map[string]int{}
	total, rc := 0, 0
	if to == 1 {
		next["q"] = 0
	} else if to == 2 {
		next["q"] = 1
	}
	for _, f := range p.c.frames() {
		if f.cmd == "RECEIPT" {
			rc++
			continue
		}
		vrt.Assert(f.cmd == "MESSAGE", "unexpected "+f.cmd)
		s := f.get("subscription")
		vrt.Assert(len(f.body) == 1 && int(f.body[0]) == next[s]&255, "messages lost or out of order")
		next[s]++
		if to == 2 {
			next[s]++
		}
		total++
	}
	vrt.Assert(total == n, "messages lost: the server is stuck")
	vrt.Assert(!tx || rc == 1, "no RECEIPT for COMMIT")
	w.served(obs)
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C22: what a subscriber gets is what was sent
// ---------------------------------------------------------------------------

// Integrity: a message with arbitrary headers and body goes through a topic
// with two subscribers (one of them twice) or a queue, where it can be
// returned by one consumer and taken by another.
func Integrity() {
	w := newWorld(nil)
	pub := w.connect("p", []string{"1.1", "1.2"}[vrt.Choose("pver", vrt.Param("pvers", 2))])
	a := w.connect("a", []string{"1.1", "1.2"}[vrt.Choose("aver", 2)])
	b := w.connect("b", "1.2")
	queue := vrt.Choose("queue", 2) == 1
	dest := "/topic/" + vrt.String("d", vrt.Param("dlen", 1))
	if queue {
		dest = "/queue/" + dest[7:]
	}
	var hs []kv
	for i := 0; i < vrt.Param("nh", 2); i++ {
		is := strconv.Itoa(i)
		k := vrt.String("k"+is, vrt.Param("klen", 1))
		if vrt.Param("given", 0) == 1 && i == 0 {
			// headers the server sets itself
			k = []string{"subscription", "message-id", "id", "ack", "content-type", "priority", "custom", "server"}[vrt.Choose("name", 8)]
		}
		hs = append(hs, kv{k, vrt.String("v"+is, vrt.Choose("vlen"+is, vrt.Param("vlen", 1)+1))})
	}
	body := vrt.Bytes("body", vrt.Choose("blen", vrt.Param("blen", 2)+1))
	if p := vrt.Param("pad", 0); p > 0 {
		body = append(make([]byte, p), body...)
		body = append(body, make([]byte, p)...)
	}
	fh := []string{"destination", dest}
	for _, h := range hs {
		fh = append(fh, h.k, h.v)
	}
	withLen := vrt.Choose("len", 2) == 1 || vrt.Param("pad", 0) > 0
	if withLen {
		fh = append(fh, "content-length", strconv.Itoa(len(body)))
	} else {
		for i := range body {
			vrt.Assume(body[i] != 0)
		}
	}
	for _, h := range hs {
		vrt.Assume(!vrt.EqStr(h.k, "content-length"))
	}
	check := func(f wframe, sub, id string, acks bool) {
		vrt.Assert(f.cmd == "MESSAGE", "not a MESSAGE")
		vrt.Assert(vrt.EqBytes(f.body, body), "the body of a message is changed")
		own := map[string]string{"destination": dest, "subscription": sub}
		var want []kv
		for _, h := range hs {
			if !isReserved(h.k) && !vrt.EqStr(h.k, "receipt") && !vrt.EqStr(h.k, "transaction") {
				want = append(want, h)
			}
		}
		var got []kv
		for _, h := range f.hs {
			switch h.k {
			case "destination", "subscription":
				vrt.Assert(vrt.EqStr(h.v, own[h.k]), "wrong or repeated "+h.k+" header")
				delete(own, h.k)
				if len(own) == 0 {
					own["done"] = ""
				}
			case "message-id", "id":
				if h.k == "message-id" {
					vrt.Assert(own["mid"] == "", "repeated message-id header")
					own["mid"] = h.v
				}
			case "ack":
				vrt.Assert(acks, "an ack header for a subscription with ack:auto")
			case "content-length":
				vrt.Assert(h.v == strconv.Itoa(len(body)), "wrong content-length")
			default:
				got = append(got, h)
			}
		}
		_, open1 := own["destination"]
		_, open2 := own["subscription"]
		vrt.Assert(!open1 && !open2 && own["mid"] != "", "a MESSAGE without destination, subscription or message-id")
		vrt.Assert(len(got) == len(want), "headers of the message are lost or added")
		for i := range got {
			vrt.Assert(vrt.EqStr(got[i].k, want[i].k) && vrt.EqStr(got[i].v, want[i].v), "a header of the message is changed or moved")
		}
		vrt.Assert(f.has("ack") == acks, "no ack header for a subscription that acknowledges")
	}
	sub := func(p *peer, id, mode string) {
		p.c.feed(enc("SUBSCRIBE", nil, "id", id, "destination", dest, "ack", mode))
		vrt.Quiesce()
	}
	send := func() {
		if n := vrt.Param("chunk", 0); n > 0 {
			pub.c.chunk = n
		}
		pub.c.feed(enc("SEND", body, fh...))
		vrt.Quiesce()
	}
	if !queue {
		ida := vrt.String("ida", 1)
		sub(a, ida, "auto")
		sub(b, "b1", "client")
		sub(b, "b2", "auto")
		send()
		fa, fb := a.c.frames(), b.c.frames()
		vrt.Assert(len(fa) == 1 && len(fb) == 2, "a topic message does not reach every subscription once")
		check(fa[0], ida, "", false)
		if fb[0].get("subscription") == "b2" {
			fb[0], fb[1] = fb[1], fb[0]
		}
		check(fb[0], "b1", "", false)
		check(fb[1], "b2", "", false)
		vrt.Reach("topic")
		return
	}
	sub(a, "first", "client")
	send()
	fa := a.c.frames()
	vrt.Assert(len(fa) == 1, "a message is not delivered")
	check(fa[0], "first", "", true)
	// a gives it back; the next one gets it unchanged
	mode := []string{"auto", "client-individual"}[vrt.Choose("mode", 2)]
	switch vrt.Choose("back", 2) {
	case 0:
		a.c.hangup()
		vrt.Quiesce()
		sub(b, "next", mode)
	case 1:
		sub(b, "next", mode)
		a.msgBack(fa[0])
		vrt.Quiesce()
	}
	fb := b.c.frames()
	vrt.Assert(len(fb) == 1, "a message that was given back is not delivered again")
	check(fb[0], "next", "", mode != "auto")
	vrt.Reach("queue")
}

func (p *peer) msgBack(f wframe) {
	if p.ver == "1.2" {
		p.c.feed(enc("NACK", nil, "id", f.get("ack")))
	} else {
		p.c.feed(enc("NACK", nil, "message-id", f.get("message-id"), "subscription", f.get("subscription")))
	}
}
