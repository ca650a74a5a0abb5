package vh

import (
	"context"
	"errors"
	"net"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/internal/vrt"
	"github.com/go-stomp/stomp/v3/server"
)

// ---------------------------------------------------------------------------
// C32: Dial, DialWithContext, ListenAndServe
//
// The network is a stand-in: net.VerifDial and net.VerifListen exist in the
// copy of package net that engine and replay use for this check; all ways of
// dialling (listening) of package net come to them.
// ---------------------------------------------------------------------------

var (
	errDial   = errors.New("connection refused")
	errListen = errors.New("address already in use")
	errOption = errors.New("no such option")
)

// Dial: an arbitrary network under Dial and DialWithContext.
func Dial() {
	network := []string{"tcp", "tcp4", "tcp6"}[vrt.Choose("network", 3)]
	address := plain("address", vrt.Param("alen", 2)) + ":61613"

	// the context
	var ctx context.Context
	var cancel context.CancelFunc
	var end time.Duration // when it ends, 0: never
	span := vrt.Param("span", 1000)
	switch vrt.Choose("ctx", 5) {
	case 0: // Dial
	case 1:
		ctx = context.Background()
	case 2:
		end = time.Duration(vrt.IntRange("deadline", 1, span)) * ms
		ctx, cancel = context.WithTimeout(context.Background(), end)
	case 3:
		end = time.Duration(vrt.IntRange("cancel", 1, span)) * ms
		ctx, cancel = context.WithCancel(context.Background())
		stop := cancel
		time.AfterFunc(end, func() { stop() })
	case 4:
		ctx, cancel = context.WithCancel(context.Background())
		cancel()
		end = -1
	}
	if cancel != nil {
		defer cancel()
	}
	deadline := false
	if ctx != nil {
		_, deadline = ctx.Deadline()
	}

	// the peer and what comes of dialling
	c := newFconn("server")
	host := ""
	badAddr := false
	switch vrt.Choose("remote", 4) {
	case 0:
		host = plain("host", vrt.Param("hlen", 2))
		for i := 0; i < len(host); i++ {
			vrt.Assume(vrt.And(host[i] != '[', host[i] != ']'))
		}
		c.addr = host + ":61613"
	case 1: // IPv6
		host = "::" + plain("host", 1)
		for i := 0; i < len(host); i++ {
			vrt.Assume(vrt.And(host[i] != '[', host[i] != ']'))
		}
		c.addr = "[" + host + "]:61613"
	case 2: // not an address with a host
		badAddr = true
		c.addr = "@" + plain("host", 1)
	case 3:
		badAddr = true
		c.addr = "a:b:" + plain("host", 1)
	}
	dials := 0
	ndial := vrt.Choose("dial", 4)
	lag := time.Duration(0)
	if ndial == 3 {
		lag = time.Duration(vrt.IntRange("lag", 1, span)) * ms
	}
	gotCtx := false
	net.VerifDial = func(dctx context.Context, d *net.Dialer, n, a string) (net.Conn, error) {
		dials++
		vrt.Assert(n == network, "another network is dialled")
		vrt.Assert(vrt.EqStr(a, address), "another address is dialled")
		if d.Timeout > 0 {
			var cancel context.CancelFunc
			dctx, cancel = context.WithTimeout(dctx, d.Timeout)
			defer cancel()
		}
		if err := dctx.Err(); err != nil {
			return nil, err
		}
		switch ndial {
		case 1:
			return nil, errDial
		case 2: // no answer
			t := time.NewTimer(2 * time.Minute)
			defer t.Stop()
			select {
			case <-t.C:
				return nil, errDial
			case <-dctx.Done():
				return nil, dctx.Err()
			}
		case 3: // after a while
			t := time.NewTimer(lag)
			defer t.Stop()
			select {
			case <-t.C:
			case <-dctx.Done():
				return nil, dctx.Err()
			}
		}
		gotCtx = true
		return c, nil
	}
	// simultaneous ends are no matter
	vrt.Assume(ndial != 3 || vrt.ConcreteBool(lag != end))

	// options
	opts := []connOpt{quietLog}
	badOpt := false
	wantHost := host
	switch vrt.Choose("opt", 4) {
	case 1:
		wantHost = plain("vhost", 1)
		opts = append(opts, stomp.ConnOpt.Host(wantHost))
	case 2:
		badOpt = true
		opts = append(opts, func(*stomp.Conn) error { return errOption })
	case 3:
		badOpt = true
		opts = append(opts, stomp.ConnOpt.AcceptVersion("1.4"))
	}

	// the answer
	answer := vrt.Choose("answer", 6)
	silent := false
	switch answer {
	case 0:
		c.feed(enc("CONNECTED", nil, "version", "1.2", "heart-beat", "0,0"))
	case 1:
		c.feed(enc("ERROR", nil, "message", "no"))
	case 2:
		c.feed(vrt.Bytes("bytes", vrt.Param("bytes", 1)))
		c.hangup()
	case 3:
		c.feed(enc("CONNECTED", nil, "version", "1.3"))
	case 4:
		c.wleft = vrt.IntRange("wleft", 0, 9)
	case 5: // nothing: only a deadline helps
		vrt.Assume(deadline)
		silent = true
	}

	base := vrt.Goroutines()
	t0 := time.Now()
	var x *stomp.Conn
	var err error
	if ctx == nil {
		x, err = stomp.Dial(network, address, opts...)
	} else {
		x, err = stomp.DialWithContext(ctx, network, address, opts...)
	}
	took := time.Since(t0)
	vrt.Quiesce()

	ok := answer == 0 && !badAddr && !badOpt && gotCtx
	if vrt.ConcreteBool(end > 0) {
		vrt.Assert(took <= end || gotCtx, "Dial goes on dialling when its context has ended")
		vrt.Assert(took <= end || !deadline, "Dial does not return by the deadline of its context")
	}
	if ndial == 2 && end > 0 || ndial == 3 && vrt.ConcreteBool(end > 0 && lag > end) {
		vrt.Assert(!gotCtx, "Dial does not give its context to the network")
		vrt.Assert(took == end || badOpt, "Dial does not end with its context")
		vrt.Reach("ended")
	}
	if dials > 0 {
		vrt.Assert(dials == 1, "more than one connection is dialled")
	}
	if !ok {
		vrt.Assert(x == nil && err != nil, "Dial succeeds although it could not connect")
		vrt.Assert(!gotCtx || c.down(), "a failed Dial leaves its network connection open")
		vrt.Assert(vrt.Goroutines() <= base, "a failed Dial leaves go-routines behind")
		if silent && gotCtx && !badAddr && !badOpt {
			vrt.Reach("silent")
		}
		if gotCtx {
			vrt.Reach("refused")
		} else {
			vrt.Reach("undialled")
		}
		return
	}
	vrt.Assert(err == nil && x != nil, "Dial fails although the server answered CONNECTED")
	vrt.Assert(took == lag, "Dial takes longer than dialling")
	fs := c.frames()
	vrt.Assert(len(fs) == 1 && fs[0].cmd == "CONNECT", "Dial does not send exactly one CONNECT frame")
	vrt.Assert(vrt.EqStr(fs[0].get("host"), wantHost), "the host header is not the host dialled or the one asked for")
	// the context is for dialling and handshake only
	time.Sleep(2 * time.Second)
	vrt.Quiesce()
	vrt.Assert(!c.down(), "the connection ends with the context it was dialled with")
	err = x.Send("/queue/a", "text/plain", []byte("x"))
	vrt.Quiesce()
	fs = c.frames()
	vrt.Assert(err == nil && len(fs) == 1 && fs[0].cmd == "SEND", "a dialled connection does not send")
	vrt.Assert(x.MustDisconnect() == nil && c.down(), "MustDisconnect does not close the connection")
	vrt.Quiesce()
	vrt.Reach("connected")
}

// Listen: ListenAndServe, of the package and of a Server.
func Listen() {
	network := ""
	address := ""
	listens := 0
	bad := vrt.Choose("bad", 2) == 1
	l := newFlistener()
	net.VerifListen = func(ctx context.Context, n, a string) (net.Listener, error) {
		listens++
		network, address = n, a
		if bad {
			return nil, errListen
		}
		return l, nil
	}
	addr := ""
	if vrt.Choose("addr", 2) == 1 {
		addr = plain("a", vrt.Param("alen", 2)) + ":1"
	}
	want := addr
	if want == "" {
		want = ":61613"
	}
	base := vrt.Goroutines()
	done := make(chan error, 1)
	go func() {
		if vrt.Choose("pkg", 2) == 1 {
			done <- server.ListenAndServe(addr)
		} else {
			s := &server.Server{Addr: addr, Log: nullLog{}}
			done <- s.ListenAndServe()
		}
	}()
	vrt.Quiesce()
	vrt.Assert(listens == 1, "ListenAndServe does not listen once")
	vrt.Assert(strings.HasPrefix(network, "tcp"), "ListenAndServe does not listen on TCP")
	vrt.Assert(vrt.EqStr(address, want), "ListenAndServe listens on another address")
	if bad {
		select {
		case err := <-done:
			vrt.Assert(errors.Is(err, errListen), "ListenAndServe does not return the error of Listen")
		default:
			vrt.Assert(false, "ListenAndServe does not return although it cannot listen")
		}
		vrt.Quiesce()
		vrt.Assert(vrt.Goroutines() <= base, "a failed ListenAndServe leaves go-routines behind")
		vrt.Reach("error")
		return
	}
	select {
	case <-done:
		vrt.Assert(false, "ListenAndServe returns although it can listen")
	default:
	}
	w := &world{l: l}
	w.destinations("/queue/", 1)
	pub := w.connect("p", "1.2")
	a := w.connect("a", "1.2")
	a.subscribe("s", 0, "auto")
	vrt.Quiesce()
	w.settle()
	m := pub.send(0)
	vrt.Quiesce()
	w.settle()
	vrt.Assert(m.state == mSettled || m.state == mOut, "ListenAndServe does not serve")
	vrt.Reach("served")
}
