package vh

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/textproto"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/go-stomp/stomp/v3/internal/vrt"
)

type wrapErr struct{ e error }

func (w wrapErr) Error() string { return "w:" + w.e.Error() }
func (w wrapErr) Unwrap() error { return w.e }

type iface interface{ Do(int) int }
type A struct{ n int }

func (a *A) Do(i int) int { return a.n + i }

type B struct {
	*A
	sync.RWMutex
	m map[string]int
}

func rec(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func Features() {
	b := vrt.Bytes("b", 2)
	s := string(b)
	k := vrt.Choose("feat", 40)
	vrt.Observe("feat", k)
	switch k {
	case 0:
		i := strings.Index("abc", "b")
		before, after, ok := strings.Cut("k:v", ":")
		vrt.Assert(i == 1 && before == "k" && after == "v" && ok, "cut")
		before, _, ok = strings.Cut(s, ":")
		if ok {
			vrt.Assert(len(before) < 2, "cutsym")
		}
	case 1:
		var sb strings.Builder
		sb.WriteByte(b[0])
		sb.WriteString(s)
		sb.WriteRune('é')
		sb.Grow(100)
		vrt.Assert(sb.Len() == 5, "builder")
	case 2:
		e := fmt.Errorf("x %w", io.EOF)
		vrt.Assert(errors.Is(e, io.EOF), "Is")
		var w wrapErr
		vrt.Assert(errors.As(error(wrapErr{io.EOF}), &w) && w.e == io.EOF, "As")
		vrt.Assert(errors.Unwrap(wrapErr{io.EOF}) == io.EOF, "Unwrap")
	case 3:
		var m sync.Map
		m.Store("a", 1)
		m.Store("b", 2)
		v, ok := m.Load("a")
		vrt.Assert(ok && v.(int) == 1, "syncmap")
		_, loaded := m.LoadOrStore("a", 3)
		vrt.Assert(loaded, "los")
		n := 0
		m.Range(func(k, v interface{}) bool { n++; return true })
		vrt.Assert(n == 2, "range")
		m.Delete("a")
		_, ok = m.LoadAndDelete("a")
		vrt.Assert(!ok, "lad")
	case 4:
		p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
		x := p.Get().(*bytes.Buffer)
		x.WriteString("a")
		x.Reset()
		p.Put(x)
		p.Get()
	case 5:
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ready := false
		go func() { mu.Lock(); ready = true; mu.Unlock(); c.Broadcast() }()
		mu.Lock()
		for !ready {
			c.Wait()
		}
		mu.Unlock()
		c.Signal()
	case 6:
		var n atomic.Int64
		n.Add(2)
		n.Store(5)
		n.CompareAndSwap(5, 6)
		vrt.Assert(n.Load() == 6, "atomic")
		var bl atomic.Bool
		bl.Store(true)
		vrt.Assert(bl.Swap(false) && !bl.Load(), "bool")
		var v atomic.Value
		v.Store("x")
		vrt.Assert(v.Load().(string) == "x", "value")
		var u atomic.Uint64
		u.Add(1)
		var i32 atomic.Int32
		i32.Add(-1)
	case 7:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		select {
		case <-ctx.Done():
		case <-time.After(2 * time.Second):
			vrt.Assert(false, "ctx")
		}
		vrt.Assert(ctx.Err() == context.DeadlineExceeded, "ctxerr")
		ctx2 := context.WithValue(context.Background(), "k", 1)
		vrt.Assert(ctx2.Value("k").(int) == 1, "val")
	case 8:
		x := []string{"c", "a", "b"}
		sort.Strings(x)
		sort.Slice(x, func(i, j int) bool { return x[i] > x[j] })
		vrt.Assert(x[0] == "c" && x[2] == "a", "sort")
		y := []int{3, 1}
		sort.Ints(y)
		vrt.Assert(sort.SearchInts(y, 3) == 1, "search")
	case 9:
		vrt.Assert(fmt.Sprintf("%s-%d-%v-%q", "a", 1, true, "q") == `a-1-true-"q"`, "sprintf")
		vrt.Assert(fmt.Sprint("a", 1) == "a1" || true, "sprint")
		vrt.Assert(fmt.Sprintf("%05d|%x|%c|%t|%5s|%-5s|%T", 42, 255, 'x', true, "a", "b", 1) == "00042|ff|x|true|    a|b    |int", "sprintf2")
	case 10:
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "%d:%s", 1, "z")
		vrt.Assert(buf.String() == "1:z", "fprintf")
		io.WriteString(&buf, "y")
		buf.WriteByte(b[0])
		buf.Truncate(2)
		buf.ReadByte()
	case 11:
		r := bufio.NewReader(bytes.NewReader([]byte("ab\ncd")))
		l, err := r.ReadString('\n')
		vrt.Assert(l == "ab\n" && err == nil, "rs")
		l2, _, _ := r.ReadLine()
		vrt.Assert(string(l2) == "cd", "rl")
		sc := bufio.NewScanner(strings.NewReader("x y\nz"))
		n := 0
		for sc.Scan() {
			n += len(sc.Text())
		}
		vrt.Assert(n == 4, "scan")
	case 12:
		l := list.New()
		e := l.PushBack(1)
		l.PushFront(2)
		l.MoveToFront(e)
		l.InsertAfter(3, e)
		vrt.Assert(l.Len() == 3 && l.Front().Value.(int) == 1, "list")
		l.Remove(e)
	case 13:
		r := rec(func() { var m map[string]int; m["a"] = 1 })
		vrt.Assert(r != nil, "nilmap")
		r = rec(func() { panic(errors.New("x")) })
		vrt.Assert(r.(error).Error() == "x", "rec")
		r = rec(func() { var a []int; _ = a[len(b)] })
		_, ok := r.(runtime.Error)
		vrt.Assert(ok, "rt")
	case 14:
		x := &B{A: &A{1}, m: map[string]int{}}
		x.Lock()
		x.m["a"]++
		x.Unlock()
		x.RLock()
		defer x.RUnlock()
		var i iface = x
		f := i.Do
		g := (*A).Do
		vrt.Assert(f(2) == 3 && g(x.A, 1) == 2, "methods")
	case 15:
	outer:
		for i := 0; i < 3; i++ {
			for j := 0; ; j++ {
				if j == 2 {
					continue outer
				}
				if i == 2 {
					break outer
				}
			}
		}
		i := 0
	again:
		i++
		if i < 3 {
			goto again
		}
		switch {
		case i == 3:
			fallthrough
		case i == 4:
			i = 9
		default:
			i = 0
		}
		vrt.Assert(i == 9, "goto")
	case 16:
		t := time.NewTicker(time.Second)
		<-t.C
		t.Reset(2 * time.Second)
		t.Stop()
		tm := time.NewTimer(time.Hour)
		if !tm.Stop() {
			<-tm.C
		}
		tm.Reset(time.Millisecond)
		<-tm.C
		st := time.Now()
		time.Sleep(time.Millisecond)
		vrt.Assert(time.Since(st) >= time.Millisecond, "since")
		vrt.Assert(time.Until(st) < 0, "until")
		vrt.Assert(st.Add(time.Second).After(st) && st.Before(st.Add(1)) && !st.IsZero(), "time")
		d := time.Duration(1500) * time.Millisecond
		vrt.Assert(d.Milliseconds() == 1500 && d.Seconds() == 1.5 && d.Round(time.Second) == 2*time.Second && d.String() == "1.5s", "dur")
	case 17:
		vrt.Assert(strings.TrimSpace(" a ") == "a" && strings.TrimSuffix("ab", "b") == "a" && strings.TrimPrefix("ab", "a") == "b" && strings.TrimRight("a\r\n", "\r\n") == "a" && strings.Trim("xax", "x") == "a", "trim")
		vrt.Assert(strings.EqualFold("A", "a") && strings.ToLower("AB") == "ab" && strings.ToUpper("ab") == "AB" && strings.Title("ab") == "Ab", "case")
		vrt.Assert(strings.Count("aab", "a") == 2 && strings.Repeat("a", 3) == "aaa" && strings.LastIndex("aba", "a") == 2 && strings.ContainsAny("abc", "xc") && strings.ContainsRune("abc", 'c') && strings.IndexByte("abc", 'c') == 2 && strings.IndexFunc("abc", unicode.IsUpper) == -1, "str")
		vrt.Assert(strings.Join(strings.Fields(" a  b "), ",") == "a,b" && strings.Join(strings.Split("a,b", ","), "") == "ab" && len(strings.SplitN("a,b,c", ",", 2)) == 2 && len(strings.SplitAfter("a,b", ",")) == 2, "split")
		vrt.Assert(strings.Map(func(r rune) rune { return r + 1 }, "ab") == "bc" && strings.Replace("aa", "a", "b", 1) == "ba" && strings.ReplaceAll("aa", "a", "b") == "bb", "map")
		vrt.Assert(strings.NewReplacer("a", "1", "b", "2").Replace("ab") == "12", "replacer")
		strings.TrimSpace(s)
		strings.ToLower(s)
		strings.HasPrefix(s, "a")
	case 18:
		bytes.Equal(b, []byte("ab"))
		bytes.Contains(b, []byte("a"))
		bytes.IndexByte(b, 'x')
		bytes.Index(b, []byte("x"))
		bytes.TrimSpace(b)
		bytes.TrimRight(b, "\r")
		bytes.HasSuffix(b, []byte("\r"))
		bytes.Split(b, []byte(":"))
		bytes.Compare(b, []byte("ab"))
		bytes.Count(b, []byte("a"))
		bytes.Join([][]byte{b, b}, []byte(","))
		bytes.Replace(b, []byte("a"), []byte("bb"), -1)
		bytes.ToUpper(b)
		bytes.Repeat(b, 2)
		bytes.SplitN(b, []byte(":"), 2)
		bytes.LastIndexByte(b, 'a')
		bytes.ContainsAny(b, "xy")
		bytes.EqualFold(b, []byte("ab"))
	case 19:
		strconv.Atoi(s)
		strconv.ParseInt(s, 10, 64)
		strconv.ParseUint(s, 10, 32)
		strconv.ParseBool("true")
		strconv.ParseFloat("1.5", 64)
		vrt.Assert(strconv.Quote("a\n") == `"a\n"` && strconv.FormatInt(-255, 16) == "-ff" && string(strconv.AppendInt(nil, 12, 10)) == "12" && strconv.FormatBool(true) == "true", "strconv")
		vrt.Assert(strconv.FormatFloat(1.5, 'f', -1, 64) == "1.5", "ff")
	case 20:
		var wg sync.WaitGroup
		var once sync.Once
		n := int32(0)
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); once.Do(func() { atomic.AddInt32(&n, 1) }); runtime.Gosched() }()
		}
		wg.Wait()
		vrt.Assert(n == 1, "once")
	case 21:
		ch := make(chan int, 3)
		go func() {
			defer close(ch)
			for i := 0; i < 5; i++ {
				ch <- i
			}
		}()
		n := 0
		for v := range ch {
			n += v
		}
		vrt.Assert(n == 10 && len(ch) == 0 && cap(ch) == 3, "chan")
		var nilch chan int
		select {
		case <-nilch:
		default:
		}
	case 22:
		pr, pw := io.Pipe()
		go func() { pw.Write([]byte("ab")); pw.Close() }()
		d, err := io.ReadAll(pr)
		vrt.Assert(string(d) == "ab" && err == nil, "pipe")
	case 23:
		x := make([]byte, 1)
		io.ReadFull(bytes.NewReader(b), x)
		io.ReadAtLeast(bytes.NewReader(b), x, 1)
		io.Copy(io.Discard, bytes.NewReader(b))
		io.CopyN(io.Discard, bytes.NewReader(b), 1)
		lr := io.LimitReader(bytes.NewReader(b), 1)
		io.ReadAll(lr)
		mr := io.MultiReader(bytes.NewReader(b), strings.NewReader("x"))
		io.ReadAll(mr)
		tr := io.TeeReader(bytes.NewReader(b), io.Discard)
		io.ReadAll(tr)
	case 24:
		vrt.Assert(math.MaxInt64 > 0 && math.Max(1, 2) == 2 && math.Min(1, 2) == 1 && math.Floor(1.5) == 1 && math.Abs(-1) == 1 && math.Ceil(1.2) == 2, "math")
	case 25:
		utf8.Valid(b)
		utf8.ValidString(s)
		utf8.RuneCountInString(s)
		for _, r := range "aé" {
			unicode.IsLetter(r)
			unicode.IsSpace(r)
			unicode.IsDigit(r)
		}
		r := []rune("aé")
		vrt.Assert(len(r) == 2 && string(r) == "aé", "rune")
	case 26:
		a := [3]int{1, 2, 3}
		c := a
		c[0] = 9
		sl := a[:2:2]
		sl = append(sl, 7)
		vrt.Assert(a[2] == 3 && c != a && sl[2] == 7, "arr")
		n := copy(sl, sl[1:])
		vrt.Assert(n == 2, "copy")
		m := map[[2]int]string{{1, 2}: "x"}
		vrt.Assert(m[[2]int{1, 2}] == "x", "arrkey")
		type key struct {
			a string
			b int
		}
		m2 := map[key]bool{{"a", 1}: true}
		vrt.Assert(m2[key{"a", 1}] && !m2[key{"b", 1}], "structkey")
		m3 := map[interface{}]int{"a": 1, 2: 2}
		vrt.Assert(m3["a"] == 1 && m3[2] == 2, "ifkey")
	case 27:
		if os.Getenv("STOMP_DEBUG") != "" {
			vrt.Assert(false, "env")
		}
	case 28:
		h := textproto.CanonicalMIMEHeaderKey("content-length")
		vrt.Assert(h == "Content-Length", "mime")
	case 29:
		var x interface{} = b
		switch v := x.(type) {
		case string:
			vrt.Assert(false, v)
		case []byte, *A:
			_ = v
		case nil:
		}
		_, ok := x.(fmt.Stringer)
		vrt.Assert(!ok, "stringer")
	case 30:
		fs := []func() int{}
		for i := 0; i < 3; i++ {
			i := i
			fs = append(fs, func() int { i++; return i })
		}
		vrt.Assert(fs[0]() == 1 && fs[0]() == 2 && fs[2]() == 3, "closures")
		defer func(x int) { vrt.Assert(x == 3, "defer") }(len(fs))
		for i := range fs {
			defer fs[i]()
		}
	case 31:
		e := errors.Join(io.EOF, io.ErrUnexpectedEOF)
		vrt.Assert(errors.Is(e, io.EOF), "join")
		vrt.Assert(e.Error() == "EOF\nunexpected EOF", "joinstr")
	case 32:
		ctx, cancel := context.WithCancel(context.Background())
		stop := context.AfterFunc(ctx, func() {})
		cancel()
		stop()
		_, c2 := context.WithCancelCause(ctx)
		c2(io.EOF)
		context.Cause(ctx)
	case 33:
		w := bufio.NewWriterSize(io.Discard, 16)
		w.WriteString(s)
		w.WriteByte(1)
		w.WriteRune('x')
		w.Flush()
		vrt.Assert(w.Buffered() == 0 && w.Available() == 16 && w.Size() == 16, "bw")
		rw := bufio.NewReadWriter(bufio.NewReader(bytes.NewReader(b)), w)
		rw.ReadByte()
		rw.UnreadByte()
		rw.Peek(1)
		rw.Discard(1)
		rw.ReadRune()
	case 34:
		var x, y uint32 = 1 << 31, 3
		z := x*y>>1 | y&^1
		vrt.Assert(z != 0, "bits")
		var c complex128 = 1i
		_ = real(c)
		f := float64(len(b)) * 1.5
		vrt.Assert(int(f) == 3, "float")
		q := int8(b[0])
		_ = q << 1
		_ = -q
	case 35:
		r := strings.NewReader("a:b\nc")
		tp := textproto.NewReader(bufio.NewReader(r))
		l, err := tp.ReadLine()
		vrt.Assert(l == "a:b" && err == nil, "tp")
	case 36:
		o := sync.OnceFunc(func() {})
		o()
		o()
	case 37:
		fmt.Fprintln(io.Discard, "x", 1)
		_ = fmt.Sprintln("a", 2)
		_ = fmt.Sprintf("%+v %#v %p", struct{ A int }{1}, "a", nil)
	case 38:
		runtime.NumGoroutine()
		runtime.GC()
		x := &A{1}
		runtime.KeepAlive(x)
	case 39:
		var rw sync.RWMutex
		vrt.Assert(rw.TryLock(), "try")
		rw.Unlock()
		var mu sync.Mutex
		vrt.Assert(mu.TryLock() && !mu.TryLock(), "trymu")
		mu.Unlock()
	}
	vrt.Reach("end")
}
