package vh

import (
	"bufio"
	"bytes"
	"context"
	"crypto/rand"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	mrand "math/rand"
	"net"
	"net/url"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unsafe"

	"github.com/go-stomp/stomp/v3/internal/vrt"
)

type byN []int

func (b byN) Len() int           { return len(b) }
func (b byN) Less(i, j int) bool { return b[i] < b[j] }
func (b byN) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type embedErr struct{ error }

func (e embedErr) Timeout() bool { return true }

type st struct {
	a int
	b string
}

func (s st) String() string { return s.b }

func Features2() {
	b := vrt.Bytes("b", 2)
	s := string(b)
	k := vrt.Choose("feat", 40)
	vrt.Observe("feat", k)
	switch k {
	case 0:
		var wg sync.WaitGroup
		wg.Add(1)
		time.AfterFunc(time.Second, wg.Done)
		wg.Wait()
	case 1:
		n := mrand.Intn(10)
		vrt.Assert(n >= 0 && n < 10, "rand")
	case 2:
		x := make([]byte, 4)
		rand.Read(x)
		_ = hex.EncodeToString(x)
	case 3:
		_, _, err := net.SplitHostPort(s)
		_ = err
		vrt.Assert(net.JoinHostPort("::1", "80") == "[::1]:80", "jhp")
	case 4:
		ip := net.ParseIP("127.0.0.1")
		vrt.Assert(ip != nil && ip.IsLoopback(), "ip")
	case 5:
		var ne net.Error
		e := error(&net.OpError{Op: "read", Err: os.ErrDeadlineExceeded})
		vrt.Assert(errors.As(e, &ne) && ne.Timeout(), "neterr")
		vrt.Assert(errors.Is(e, os.ErrDeadlineExceeded), "dl")
		vrt.Assert(errors.Is(&net.OpError{Err: net.ErrClosed}, net.ErrClosed), "closed")
	case 6:
		e := embedErr{io.EOF}
		var t interface{ Timeout() bool }
		vrt.Assert(errors.As(error(e), &t) && t.Timeout(), "embed")
	case 7:
		x := make([]byte, 8)
		binary.BigEndian.PutUint32(x, 7)
		vrt.Assert(binary.BigEndian.Uint32(x) == 7 && binary.LittleEndian.Uint16(x[2:]) == 0x700, "bin")
	case 8:
		h := fnv.New32a()
		h.Write(b)
		h.Sum32()
	case 9:
		l := log.New(io.Discard, "p", log.LstdFlags)
		l.Printf("x %d", 1)
		log.Printf("x %s", s)
	case 10:
		fmt.Fprintln(os.Stderr, "x")
		fmt.Fprintf(os.Stdout, "")
	case 11:
		vrt.Assert(reflect.DeepEqual([]string{"a"}, []string{"a"}), "deep")
	case 12:
		defer func() { recover(); debug.Stack() }()
		panic("x")
	case 13:
		x := byN{3, 1, 2}
		sort.Sort(x)
		sort.Stable(sort.Reverse(x))
		vrt.Assert(x[0] == 3, "sort")
		vrt.Assert(sort.Search(3, func(i int) bool { return i >= 1 }) == 1, "search")
	case 14:
		strings.FieldsFunc(s, func(r rune) bool { return r == ',' })
		vrt.Assert(strings.TrimLeft("xxa", "x") == "a" && strings.TrimFunc(" a", func(r rune) bool { return r == ' ' }) == "a", "trimf")
	case 15:
		d, err := time.ParseDuration("1.5s")
		vrt.Assert(d == 1500*time.Millisecond && err == nil, "pd")
	case 16:
		t := time.Now()
		_ = t.UnixNano()
		_ = t.Unix()
		_ = t.UnixMilli()
	case 17:
		t := time.Now().Add(time.Second)
		ctx, cancel := context.WithDeadline(context.Background(), t)
		defer cancel()
		d, ok := ctx.Deadline()
		vrt.Assert(ok && d.Equal(t), "deadline")
		<-ctx.Done()
	case 18:
		a, c := net.Pipe()
		go func() { a.Write([]byte("x")); a.Close() }()
		d, _ := io.ReadAll(c)
		vrt.Assert(string(d) == "x", "pipe")
	case 19:
		u, err := url.Parse("tcp://h:1/x")
		vrt.Assert(err == nil && u.Host == "h:1", "url")
	case 20:
		var n int
		fmt.Sscanf("12", "%d", &n)
		vrt.Assert(n == 12, "sscanf")
	case 21:
		r := bufio.NewReader(bytes.NewReader([]byte("ab\ncd\n")))
		l, _ := r.ReadSlice('\n')
		l2, _ := r.ReadBytes('\n')
		vrt.Assert(string(l) == "ab\n" && string(l2) == "cd\n", "rs")
		r.Reset(bytes.NewReader(b))
		r.WriteTo(io.Discard)
	case 22:
		var buf bytes.Buffer
		buf.ReadFrom(bytes.NewReader(b))
		buf.Next(1)
		buf.UnreadByte()
		buf.Bytes()
		buf.ReadString('x')
		buf.ReadBytes('x')
	case 23:
		var p unsafe.Pointer
		x := 1
		atomic.StorePointer(&p, unsafe.Pointer(&x))
		vrt.Assert(*(*int)(atomic.LoadPointer(&p)) == 1, "ap")
	case 24:
		vrt.Assert(fmt.Sprint(st{1, "x"}) == "x" && fmt.Sprintf("%v %s", st{1, "x"}, &st{1, "y"}) == "x y", "stringer")
		vrt.Assert(fmt.Sprintf("%v", io.EOF) == "EOF" && fmt.Sprintf("%v", []int{1, 2}) == "[1 2]" && fmt.Sprintf("%v", map[string]int{"a": 1}) == "map[a:1]", "v")
		vrt.Assert(fmt.Sprintf("%d,%d", 10*time.Second, uint8(3)) == "10000000000,3" && fmt.Sprintf("%v", 2*time.Second) == "2s", "dur")
		vrt.Assert(fmt.Sprintf("%.2f", 1.234) == "1.23", "f")
	case 25:
		_ = fmt.Sprintf("%s %v %d", s, b, b[0])
		_ = fmt.Sprintf("%q", s)
		_ = fmt.Sprintf("%x", b)
	case 26:
		strconv.Quote(s)
		strconv.Unquote(s)
		strconv.AppendQuote(nil, s)
	case 27:
		w := tabwriter.NewWriter(io.Discard, 0, 8, 1, ' ', 0)
		w.Flush()
	case 28:
		// select with timeouts
		c := make(chan int)
		done := make(chan struct{})
		go func() {
			defer close(done)
			select {
			case v := <-c:
				_ = v
			case <-time.After(time.Second):
			}
		}()
		<-done
	case 29:
		// struct compare, nested
		type in struct{ a, b int }
		x := struct {
			in
			s string
		}{in{1, 2}, "a"}
		y := x
		y.b = 3
		vrt.Assert(x != y && x.in != y.in, "cmp")
		arr := [2]struct{ p *int }{}
		vrt.Assert(arr[0] == arr[1], "arr")
	case 30:
		var m map[string][]string
		vrt.Assert(m["x"] == nil && len(m) == 0, "nil map")
		m = map[string][]string{}
		m[s] = append(m[s], "a")
		delete(m, "zz")
		for k, v := range m {
			vrt.Assert(len(k) == 2 && len(v) == 1, "range")
		}
	case 31:
		v := reflect.TypeOf(b)
		_ = v.String()
	case 32:
		f := func(xs ...int) int { return len(xs) }
		vrt.Assert(f() == 0 && f([]int{1, 2}...) == 2, "var")
		func() {
			defer func() {
				if r := recover(); r != nil {
					vrt.Assert(fmt.Sprint(r) == "boom", "boom")
				}
			}()
			defer panic("boom")
		}()
	case 33:
		x := uint8(b[0])
		switch {
		case x >= '0' && x <= '9':
			vrt.Assert(x-'0' < 10, "digit")
		}
		tbl := [256]bool{'a': true}
		if tbl[x] {
			vrt.Assert(x == 'a', "tbl")
		}
	case 34:
		x := "0123456789"
		if int(b[0]) < len(x) {
			c := x[b[0]]
			vrt.Assert(c-'0' == b[0], "idx")
		}
		y := x[len(b):]
		vrt.Assert(len(y) == 8, "slice")
	case 35:
		for i, c := range s {
			_ = i
			if c == '\n' {
				break
			}
		}
		_ = []rune(s)
		_ = []byte(s)
	case 36:
		strings.ContainsAny(s, "\r\n:\\")
		strings.IndexAny(s, "\r\n")
		strings.ContainsRune(s, '\n')
		strings.IndexRune(s, ':')
		strings.LastIndexByte(s, ':')
		strings.SplitN(s, ":", 2)
	case 37:
		r := strings.NewReplacer("\\", "\\\\", "\n", "\\n", ":", "\\c")
		_ = r.Replace(s)
		var sb strings.Builder
		r.WriteString(&sb, s)
	case 38:
		n, err := strconv.ParseUint(s, 0, 16)
		_, _ = n, err
		m, err := strconv.ParseInt(s, 16, 8)
		_, _ = m, err
		var ne *strconv.NumError
		if errors.As(err, &ne) {
			_ = ne.Func
		}
	case 39:
		var once sync.Once
		once.Do(func() {})
		var wg sync.WaitGroup
		wg.Go(func() {})
		wg.Wait()
	}
	vrt.Reach("end")
}
