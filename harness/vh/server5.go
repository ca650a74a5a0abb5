package vh

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/server/queue"
)

// StalledClient: a subscriber of a topic stops reading from its connection.
func StalledClient() {
	w := newWorld(nil)
	obs := w.witness()
	p := w.connect("x", "1.2")
	p.c.feed(enc("SUBSCRIBE", nil, "id", "t", "destination", "/topic/t"))
	vrt.Quiesce()
	p.c.mu.Lock()
	p.c.stall = make(chan struct{})
	p.c.mu.Unlock()
	for i := 0; i < vrt.Param("n", 30); i++ {
		obs.c.feed(enc("SEND", []byte("x"), "destination", "/topic/t"))
		vrt.Quiesce()
	}
	obs.c.frames()
	obs.feed("SEND", []byte("w"), "destination", "/topic/w")
	vrt.Quiesce()
	vrt.Assert(len(obs.c.frames()) == 1, "a client that does not read its connection stops the server for the others")
	vrt.Reach("end")
}

// ---------------------------------------------------------------------------
// C24: heart-beats of the server
// ---------------------------------------------------------------------------

const ms = time.Millisecond

// digits is a decimal number of n arbitrary digits, as text and value.
func digits(name string, n int) (string, int) {
	s := vrt.String(name, n)
	v := 0
	for i := 0; i < n; i++ {
		vrt.Assume(vrt.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + int(s[i]-'0')
	}
	return s, v
}

// beatPeer connects with heart-beat cx,cy (arbitrary numbers) to a server with
// an arbitrary minimum and returns what was agreed.
func beatPeer() (w *world, p *peer, cx, cy int) {
	min := 60000
	srv := &server.Server{}
	if vrt.Choose("default", 2) == 0 {
		// not always whole milliseconds
		m := vrt.IntRange("min", 1, vrt.Param("min", 500))
		srv.HeartBeat = time.Duration(m)*ms + time.Duration(vrt.IntRange("us", 0, 1))*999*time.Microsecond
		min = m
	}
	w = newWorld(srv)
	w.dests = []string{"/topic/t"}
	p = w.dial("x")
	sx, cx := digits("cx", vrt.Param("dx", 3))
	sy, cy := digits("cy", vrt.Param("dy", 3))
	p.c.feed(enc("CONNECT", nil, "accept-version", "1.2", "heart-beat", sx+","+sy))
	vrt.Quiesce()
	fs := p.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "CONNECT is not answered with CONNECTED")
	hb := fs[0].get("heart-beat")
	i := strings.IndexByte(hb, ',')
	vrt.Assert(i > 0, "CONNECTED without a valid heart-beat header")
	asx, err1 := strconv.Atoi(hb[:i])
	asy, err2 := strconv.Atoi(hb[i+1:])
	vrt.Assert(err1 == nil && err2 == nil, "CONNECTED without a valid heart-beat header")
	// sx: what the server sends, sy: what it wants to receive
	want := func(c int) int {
		if c != 0 && c < min {
			return min
		}
		return c
	}
	vrt.Assert(asx == want(cy), "the server does not announce the heart-beats the client asked for")
	vrt.Assert(asy == want(cx), "the server does not announce the heart-beats it expects")
	return w, p, asy, asx
}

// ServerBeats: what the server sends to an idle client (the client itself is
// never silent for long), with a MESSAGE somewhere in between.
func ServerBeats() {
	w, p, cx, cy := beatPeer()
	vrt.Assume(cx == 0)
	if cy == 0 {
		time.Sleep(200 * time.Second)
		vrt.Quiesce()
		vrt.Assert(len(p.c.take()) == 0, "heart-beats although the client wants none")
		vrt.Assert(!p.c.down(), "a healthy connection is closed")
		vrt.Reach("none")
		return
	}
	d := time.Duration(cy) * ms
	t0 := time.Now()
	first := len(p.c.outAt) - 1
	if vrt.Choose("traffic", 2) == 1 {
		pub := w.connect("pub", "1.2")
		p.c.feed(enc("SUBSCRIBE", nil, "id", "t", "destination", "/topic/t"))
		vrt.Quiesce()
		at := time.Duration(vrt.IntRange("at", 0, 1000)) * ms
		vrt.Assume(at < 2*d)
		time.Sleep(at)
		pub.c.feed(enc("SEND", nil, "destination", "/topic/t"))
		vrt.Quiesce()
	}
	// not at the very moment of a heart-beat, even with the shortest interval
	time.Sleep(time.Duration(vrt.Param("beats", 3))*d - time.Since(t0) + ms/2)
	vrt.Quiesce()
	vrt.Assert(!p.c.down(), "a healthy connection is closed")
	at := p.c.outAt[first:]
	for i := 1; i < len(at); i++ {
		vrt.Assert(at[i].Sub(at[i-1]) <= d, "the server is silent for longer than it announced")
	}
	vrt.Assert(time.Since(at[len(at)-1]) <= d, "the server is silent for longer than it announced")
	beats := 0
	for _, f := range p.c.take() {
		if f.beat {
			beats++
		} else {
			vrt.Assert(f.cmd == "MESSAGE", "an unexpected frame")
		}
	}
	vrt.Assert(beats > 0 && beats <= vrt.Param("beats", 3), "too many or no heart-beats")
	vrt.Reach("beats")
}

// ServerTimeout: a client that sends something at an arbitrary interval and
// then falls silent.
func ServerTimeout() {
	w, p, cx, cy := beatPeer()
	vrt.Assume(cy == 0)
	w.dests = []string{"/topic/t"}
	if cx == 0 {
		time.Sleep(1000 * time.Second)
		vrt.Quiesce()
		vrt.Assert(!p.c.down(), "a client that announced no heart-beats is dropped")
		vrt.Reach("none")
		return
	}
	d := time.Duration(cx) * ms
	step := time.Duration(vrt.IntRange("step", 1, 1999)) * ms
	vrt.Assume(step < 2*d)
	vrt.Assume(step > d/2)
	for i := 0; i < vrt.Param("n", 3); i++ {
		time.Sleep(step)
		vrt.Quiesce()
		vrt.Assert(!p.c.down(), "a client that is not silent is dropped")
		switch vrt.Choose("what"+strconv.Itoa(i), vrt.Param("whats", 3)) {
		case 0:
			p.c.feed([]byte("\n"))
		case 1:
			p.c.feed(enc("SEND", nil, "destination", "/topic/t"))
		case 2:
			// a frame that takes its time
			p.c.feed([]byte("SEND\ndestination:/topic/t\n"))
			time.Sleep(step)
			p.c.feed([]byte("x:y\n"))
			time.Sleep(step)
			p.c.feed([]byte("\n\x00"))
		}
		vrt.Quiesce()
	}
	time.Sleep(2*d - ms)
	vrt.Quiesce()
	vrt.Assert(!p.c.down(), "a client is dropped before twice the interval is over")
	time.Sleep(2 * ms)
	vrt.Quiesce()
	vrt.Assert(p.c.down(), "a client that is silent for more than twice the interval is not dropped")
	vrt.Reach("dropped")
}

// BeatHeader: an arbitrary heart-beat header.
func BeatHeader() {
	w := newWorld(nil)
	p := w.dial("x")
	n := vrt.Param("n", 4)
	h := vrt.String("h", n)
	p.c.feed(enc("CONNECT", nil, "accept-version", "1.2", "heart-beat", h))
	vrt.Quiesce()
	comma, ok := -1, true
	for i := 0; i < n; i++ {
		if h[i] == ',' {
			ok = ok && comma < 0
			comma = i
		} else if h[i] < '0' || h[i] > '9' {
			ok = false
		}
	}
	ok = ok && comma > 0 && comma < n-1
	if !ok {
		p.refused("a malformed heart-beat header")
		vrt.Reach("refused")
		return
	}
	fs := p.c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECTED", "a valid heart-beat header is refused")
	vrt.Reach("connected")
}

// ---------------------------------------------------------------------------
// C23: queue storage
// ---------------------------------------------------------------------------

// StorageOps: the in-memory storage against a list per queue name.
func StorageOps() {
	st := queue.NewMemoryQueueStorage()
	st.Start()
	nd := vrt.Param("names", 2)
	names := make([]string, nd)
	model := make([][]*frame.Frame, nd)
	for i := range names {
		names[i] = vrt.String("name"+strconv.Itoa(i), 1)
		for j := 0; j < i; j++ {
			vrt.Assume(names[i] != names[j])
		}
	}
	n := vrt.Param("n", 5)
	for i := 0; i < n; i++ {
		is := strconv.Itoa(i)
		k := vrt.Choose("name"+is+"x", nd)
		f := frame.New("MESSAGE", "n", is)
		switch vrt.Choose("op"+is, 3) {
		case 0:
			vrt.Assert(st.Enqueue(names[k], f) == nil, "Enqueue fails")
			model[k] = append(model[k], f)
		case 1:
			vrt.Assert(st.Requeue(names[k], f) == nil, "Requeue fails")
			model[k] = append([]*frame.Frame{f}, model[k]...)
		case 2:
			g, err := st.Dequeue(names[k])
			vrt.Assert(err == nil, "Dequeue fails")
			if len(model[k]) == 0 {
				vrt.Assert(g == nil, "Dequeue of an empty queue returns a frame")
				vrt.Reach("empty")
			} else {
				vrt.Assert(g == model[k][0], "Dequeue does not return the head of the queue")
				model[k] = model[k][1:]
				vrt.Reach("frame")
			}
		}
	}
	for k := range names {
		for _, f := range model[k] {
			g, err := st.Dequeue(names[k])
			vrt.Assert(err == nil && g == f, "a queue has lost or reordered frames")
			v, ok := g.Header.Contains("n")
			vrt.Assert(ok && v != "" && g.Command == "MESSAGE", "a stored frame is changed")
		}
		g, err := st.Dequeue(names[k])
		vrt.Assert(err == nil && g == nil, "a queue has frames nobody put in")
	}
	vrt.Reach("end")
}

// store is a queue storage of the user, with messages from an earlier run.
type store struct {
	started int
	qs      map[string][]*frame.Frame
	log     []string
}

func (s *store) use() {
	vrt.Assert(s.started == 1, "the storage is used before Start")
}

func (s *store) Enqueue(q string, f *frame.Frame) error {
	s.use()
	s.check(q, f)
	s.qs[q] = append(s.qs[q], f)
	s.log = append(s.log, "enqueue")
	return nil
}

func (s *store) Requeue(q string, f *frame.Frame) error {
	s.use()
	s.check(q, f)
	s.qs[q] = append([]*frame.Frame{f}, s.qs[q]...)
	s.log = append(s.log, "requeue")
	return nil
}

func (s *store) check(q string, f *frame.Frame) {
	vrt.Assert(f.Command == "MESSAGE", "a frame other than MESSAGE is stored")
	d, _ := f.Header.Contains("destination")
	vrt.Assert(vrt.EqStr(d, q), "a message is stored in another queue than its destination")
}

func (s *store) Dequeue(q string) (*frame.Frame, error) {
	s.use()
	l := s.qs[q]
	if len(l) == 0 {
		return nil, nil
	}
	s.qs[q] = l[1:]
	return l[0], nil
}

func (s *store) Start() {
	s.started++
	vrt.Assert(s.started == 1, "Start is called twice")
}

func (s *store) Stop() {}

var errStore = errors.New("storage")

// StorageServer: a server with a user's storage that has messages already.
func StorageServer() {
	st := &store{qs: map[string][]*frame.Frame{}}
	w := &world{}
	w.destinations("/queue/", 2)
	npre := vrt.Param("pre", 2)
	for i := 0; i < npre; i++ {
		m := &qmsg{tag: byte(len(w.msgs) + 1), dest: vrt.Choose("d"+strconv.Itoa(i), 2), state: mTx}
		m.body = []byte{m.tag, vrt.Byte("b" + strconv.Itoa(i))}
		f := frame.New("MESSAGE", "destination", w.dests[m.dest], "content-length", "2")
		f.Body = m.body
		st.qs[w.dests[m.dest]] = append(st.qs[w.dests[m.dest]], f)
		w.msgs = append(w.msgs, m)
		w.publish(m)
	}
	srv := &server.Server{QueueStorage: st, Log: nullLog{}}
	w.l = newFlistener()
	go srv.Serve(w.l)
	pub := w.connect("p", "1.2")
	a := w.connect("a", "1.2")
	vrt.Assert(st.started == 1, "the storage is not started")
	for i := 0; i < vrt.Param("n", 3); i++ {
		is := strconv.Itoa(i)
		nact := 0
		for _, s := range a.subs {
			if s.active {
				nact++
			}
		}
		var out *qmsg
		for _, m := range w.msgs {
			if m.state == mOut && m.sub.p == a {
				out = m
			}
		}
		ops := []int{0, 1}
		if nact < 2 && !a.gone {
			ops = append(ops, 2, 3)
		}
		if out != nil {
			ops = append(ops, 4, 5)
		}
		if !a.gone {
			ops = append(ops, 6)
		}
		switch k := ops[vrt.Choose("op"+is, len(ops))]; k {
		case 0, 1:
			pub.send(k)
		case 2, 3:
			a.subscribe("s"+is, k-2, ackModes[vrt.Choose("mode"+is, 2)])
		case 4:
			a.ack(out)
		case 5:
			a.nack(out)
		case 6:
			a.leave(0)
		}
		w.settle()
		// what is not with a client is in the storage
		for d := range w.dests {
			n := 0
			for _, m := range w.msgs {
				if m.dest == d && m.state == mQueued {
					n++
				}
			}
			vrt.Assert(len(st.qs[w.dests[d]]) == n, "a waiting message is not in the storage, or one that was delivered still is")
		}
	}
	w.drain()
	vrt.Reach("end")
}
