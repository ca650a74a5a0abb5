package vh

import (
	"strconv"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
)

// ---------------------------------------------------------------------------
// C31: a queue storage that fails
// ---------------------------------------------------------------------------

// badStore is a storage whose operations fail now and then. What fails has no
// effect on what is stored.
type badStore struct {
	store
	w     *world
	left  int  // failures that may still happen
	fails int  // failures so far
	deq   bool // a Dequeue failed
	n     int
}

func (s *badStore) fail() bool {
	if s.left == 0 {
		return false
	}
	s.n++
	if vrt.Choose("fail"+strconv.Itoa(s.n), 2) == 0 {
		return false
	}
	s.left--
	s.fails++
	return true
}

// lost: the message of a frame that was refused is gone.
func (s *badStore) lost(f *frame.Frame) {
	for _, m := range s.w.msgs {
		if len(f.Body) > 0 && f.Body[0] == m.tag {
			m.state = mNever
		}
	}
}

func (s *badStore) Enqueue(q string, f *frame.Frame) error {
	if s.fail() {
		s.lost(f)
		vrt.Reach("enqueue")
		return errStore
	}
	return s.store.Enqueue(q, f)
}

func (s *badStore) Requeue(q string, f *frame.Frame) error {
	if s.fail() {
		s.lost(f)
		vrt.Reach("requeue")
		return errStore
	}
	return s.store.Requeue(q, f)
}

func (s *badStore) Dequeue(q string) (*frame.Frame, error) {
	if s.fail() {
		s.deq = true
		vrt.Reach("dequeue")
		return nil, errStore
	}
	return s.store.Dequeue(q)
}

// StorageFails: a server with a storage of the user that fails at any of its
// operations. Nothing but the failed operation itself is affected: the server
// goes on, no message that was stored is lost or delivered twice, and
// subscriptions go on.
func StorageFails() {
	st := &badStore{store: store{qs: map[string][]*frame.Frame{}}}
	w := &world{l: newFlistener()}
	st.w = w
	srv := &server.Server{QueueStorage: st, Log: nullLog{}}
	go srv.Serve(w.l)
	nd := vrt.Param("dests", 1)
	w.destinations("/queue/", nd)
	pub := w.connect("p", "1.2")
	a := w.connect("a", "1.2")
	st.left = vrt.Param("fails", 1)
	// messages that wait because a Dequeue failed are overtaken by others
	settle := func() {
		vrt.Quiesce()
		w.loose = st.deq
		w.settle()
		for _, p := range w.peers {
			vrt.Assert(p.gone || !p.c.down(), "a connection ends because the storage fails")
		}
	}
	for i := 0; i < vrt.Param("n", 3); i++ {
		is := strconv.Itoa(i)
		var ops []func()
		for d := 0; d < nd; d++ {
			d := d
			ops = append(ops, func() { pub.send(d) })
		}
		nact := 0
		for _, s := range a.subs {
			s := s
			if !s.active {
				continue
			}
			nact++
			ops = append(ops, func() { a.unsubscribe(s) })
		}
		for _, m := range w.msgs {
			m := m
			if (m.state == mOut || m.state == mLimbo) && m.sub.p == a {
				ops = append(ops, func() { a.ack(m) }, func() { a.nack(m) })
			}
		}
		if !a.gone {
			if nact < nd {
				ops = append(ops, func() { a.subscribe("s"+is, vrt.Choose("dest"+is, nd), ackModes[vrt.Choose("mode"+is, 2)]) })
			}
			ops = append(ops, func() { a.leave(0) })
		}
		ops[vrt.Choose("op"+is, len(ops))]()
		settle()
	}
	// the storage works again
	st.left = 0
	for d := 0; d < nd; d++ {
		ready := false
		for _, s := range a.subs {
			if s.active && s.dest == d && len(s.out) == 0 {
				ready = true
			}
		}
		m := pub.send(d)
		settle()
		vrt.Assert(!ready || m.state == mOut || m.state == mSettled, "a subscription gets no more messages after the storage failed")
		if ready {
			vrt.Reach("ready")
		}
	}
	w.drain()
	vrt.Reach("end")
}
