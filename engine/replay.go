package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// replayer runs harnesses natively: the compiled code of /repo plus the
// harness files, put in place with go's -overlay.
type replayer struct {
	verif, repo string
	extra       []string
	dir         string
	bin         string
	err         error
	keep        bool
}

const replayMain = `package vh

import (
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3/internal/vrt"
)

var replayHarnesses = map[string]func(){
%s}

func TestReplay(t *testing.T) {
	f := replayHarnesses[vrt.Load(os.Getenv("VRT_REPLAY"))]
	if os.Getenv("VRT_REALTIME") != "" {
		vrt.SetQuiesce(func() { time.Sleep(30 * time.Millisecond) })
		f()
		vrt.Finish("DONE")
	}
	synctest.Test(t, func(t *testing.T) {
		vrt.SetQuiesce(synctest.Wait)
		f()
		vrt.Finish("DONE")
	})
}
`

func (r *replayer) build() error {
	if r.bin != "" || r.err != nil {
		return r.err
	}
	r.err = r.build1()
	return r.err
}

func (r *replayer) build1() error {
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return err
	}
	r.dir = dir
	ov, err := overlayFiles(r.verif, r.repo, r.extra)
	if err != nil {
		return err
	}
	var names []string
	re := regexp.MustCompile(`(?m)^func ([A-Z]\w*)\(\) \{`)
	for dst, src := range ov {
		if filepath.Dir(dst) != filepath.Join(r.repo, "internal/vh") {
			continue
		}
		b, _ := os.ReadFile(src)
		for _, x := range re.FindAllStringSubmatch(string(b), -1) {
			names = append(names, x[1])
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	main := filepath.Join(dir, "replay_test.go")
	if err := os.WriteFile(main, []byte(fmt.Sprintf(replayMain, sb.String())), 0644); err != nil {
		return err
	}
	ov[filepath.Join(r.repo, "internal/vh/zzverif_replay_test.go")] = main
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovFile := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovFile, oj, 0644); err != nil {
		return err
	}
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-vet=off", "-c", "-overlay", ovFile, "-o", bin, "./internal/vh")
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	r.bin = bin
	return nil
}

func (r *replayer) close() {
	if r.dir != "" && !r.keep {
		os.RemoveAll(r.dir)
	}
}

type nativeRun struct {
	status  string // DONE, VIOLATION ..., PANIC, DEADLOCK, TIMEOUT, ASSUME-FALSE
	obs     []string
	reached []string
	out     string
}

func (n nativeRun) bad() bool {
	return strings.HasPrefix(n.status, "VIOLATION") || n.status == "PANIC" || n.status == "DEADLOCK" || n.status == "TIMEOUT"
}

func (r *replayer) run(file string, realtime bool, timeout time.Duration, env ...string) nativeRun {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, "-test.run", "TestReplay", "-test.timeout", "300s")
	cmd.Dir = r.dir
	cmd.Env = append(goEnv(), "VRT_REPLAY="+file)
	cmd.Env = append(cmd.Env, env...)
	if realtime {
		cmd.Env = append(cmd.Env, "VRT_REALTIME=1")
	}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	out := buf.String()
	var res nativeRun
	res.out = out
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "VRT-OBS "):
			res.obs = append(res.obs, l[8:])
		case strings.HasPrefix(l, "VRT-REACH "):
			res.reached = append(res.reached, l[10:])
		case strings.HasPrefix(l, "VRT-"):
			res.status = l[4:]
		}
	}
	if res.status == "" {
		switch {
		case ctx.Err() != nil:
			res.status = "TIMEOUT"
		case strings.Contains(out, "deadlock"):
			res.status = "DEADLOCK"
		case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
			res.status = "PANIC"
		default:
			res.status = fmt.Sprintf("ERROR %v", err)
		}
	}
	return res
}

// confirm replays a counterexample. how says what confirmed it.
func (r *replayer) confirm(ex *Explorer, v *foundViolation) (how string, ok bool, detail string) {
	detail = "native replay not available"
	if err := r.build(); err != nil {
		detail = err.Error()
	} else {
		tries := 3
		if v.conc || v.job.Nondet {
			tries = 40
		}
		var last nativeRun
		timeouts := 0
		for i := 0; i < tries; i++ {
			n := r.run(v.replay, false, 5*time.Second)
			last = n
			if n.status == "TIMEOUT" {
				timeouts++
				if v.kind == "deadlock" || v.kind == "steplimit" {
					return "native replay of the compiled code (does not finish)", true, ""
				}
				if timeouts >= 2 {
					break
				}
				continue
			}
			if n.bad() {
				return "native replay of the compiled code: " + n.status, true, ""
			}
			if i%4 == 3 && i > 8 {
				n = r.run(v.replay, true, 20*time.Second)
				if n.bad() {
					return "native replay of the compiled code (real time): " + n.status, true, ""
				}
			}
		}
		if timeouts > 0 {
			n := r.run(v.replay, true, 60*time.Second)
			if n.bad() {
				return "native replay of the compiled code (real time): " + n.status, true, ""
			}
			last = n
		}
		detail = "native runs end with " + last.status
	}
	if !v.conc && !v.job.Nondet && v.kind != "race" {
		return "", false, detail
	}
	// The schedule cannot be forced on the compiled program: re-execute the SSA
	// form concretely with the recorded inputs and schedule.
	msg, same := ex.reexecute(v)
	if same {
		return "concrete re-execution of the compiled SSA with the recorded schedule (" + detail + ")", true, ""
	}
	return "", false, detail + "; concrete re-execution: " + msg
}

func (ex *Explorer) reexecute(v *foundViolation) (string, bool) {
	fixed := map[string]uint64{}
	for i, val := range v.vals {
		if i < len(v.names) {
			fixed[v.names[i].name] = val
		}
	}
	w := newWorker(ex, 1000)
	defer w.sol.Close()
	w.fixed = fixed
	j := *v.job
	if v.kind == "steplimit" {
		// not just slower than the step bound allows for
		j.MaxSteps *= 20
	}
	_, res := w.runItem(&item{job: &j})
	if res.status == "steplimit" {
		return res.msg, v.kind == "steplimit"
	}
	return res.status + ": " + res.msg, res.status == "violation" && res.kind == v.kind
}

// validate replays sampled paths natively and compares what they observed.
func (r *replayer) validate(jobs []*Job, nw int) (okN, total int, mism []string) {
	type work struct {
		j *Job
		s *pathSample
		i int
	}
	var ws []work
	for _, j := range jobs {
		for i, s := range j.samples {
			if s.sched {
				continue
			}
			ws = append(ws, work{j, s, i})
		}
	}
	if len(ws) == 0 {
		return 0, 0, nil
	}
	if err := r.build(); err != nil {
		return 0, 0, []string{err.Error()}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan work)
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range ch {
				f := filepath.Join(r.dir, fmt.Sprintf("s-%d-%d.json", x.j.id, x.i))
				b, _ := json.Marshal(map[string]interface{}{"harness": x.j.Harness, "params": x.j.params, "values": x.s.values})
				os.WriteFile(f, b, 0644)
				var n nativeRun
				good := false
				tries := 8
				for t := 0; t < tries && !good; t++ {
					n = r.run(f, false, 30*time.Second)
					good = n.status == "DONE" && (x.j.Nondet || (eqList(n.obs, x.s.obs) && eqList(n.reached, x.s.reached)))
				}
				mu.Lock()
				total++
				x.s.status = n.status
				if good {
					okN++
				} else {
					d := fmt.Sprintf("%s: native %s; encoding obs %v reached %v; native obs %v reached %v; inputs %v", x.j.name(), n.status, x.s.obs, x.s.reached, n.obs, n.reached, x.s.values)
					if n.status == "PANIC" || strings.HasPrefix(n.status, "ERROR") || n.status == "DEADLOCK" {
						d += "\n" + firstLines(n.out, 25)
					}
					mism = append(mism, d)
				}
				mu.Unlock()
			}
		}()
	}
	for _, x := range ws {
		ch <- x
	}
	close(ch)
	wg.Wait()
	sort.Strings(mism)
	if len(mism) > 5 {
		mism = mism[:5]
	}
	return
}

func eqList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// replayFile runs a recorded counterexample: natively, and when that does not
// show the failure, with the recorded schedule forced on the SSA form.
func replayFile(verif, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var f struct {
		Property   string            `json:"property"`
		Harness    string            `json:"harness"`
		Params     map[string]int    `json:"params"`
		All        map[string]uint64 `json:"all_variables"`
		DelayBound int               `json:"delay_bound"`
		Delays     int               `json:"delays_used"`
		MaxSteps   int64             `json:"max_steps"`
		ConcLimit  int               `json:"conc_limit"`
		MaxAlloc   int               `json:"max_alloc"`
		InPackage  []string          `json:"in_package"`
		Message    string            `json:"message"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("%s: %v", file, err)
	}
	fmt.Printf("property %s, harness %s, recorded: %s\n", f.Property, f.Harness, firstLines(f.Message, 3))
	r := &replayer{verif: verif, repo: repo, extra: f.InPackage}
	defer r.close()
	if err := r.build(); err != nil {
		fmt.Println(err)
	} else {
		tries := 3
		if f.Delays > 0 {
			tries = 20
		}
		for i := 0; i < tries; i++ {
			n := r.run(file, i%4 == 3, 20*time.Second)
			if n.bad() {
				fmt.Printf("compiled code: %s\n%s\n", n.status, firstLines(n.out, 60))
				return 1
			}
			if i == 0 {
				fmt.Printf("compiled code: %s\n", n.status)
			}
		}
	}
	prog, vh, err := loadProgram(verif, repo, f.InPackage)
	if err != nil {
		die("cannot load the program: %v", err)
	}
	fn := vh.Func(f.Harness)
	if fn == nil {
		die("no harness %s", f.Harness)
	}
	ex := &Explorer{prog: prog, vh: vh, solver: solverPath(), deadline: time.Now().Add(5 * time.Minute)}
	ex.cond = sync.NewCond(&ex.mu)
	ex.initFn = prog.get(vh.Func("init"))
	j := &Job{Harness: f.Harness, Params: f.Params, params: f.Params, Delays: f.DelayBound, MaxSteps: f.MaxSteps,
		concLimit: f.ConcLimit, maxAlloc: f.MaxAlloc, fn: prog.get(fn)}
	w := newWorker(ex, 1000)
	defer w.sol.Close()
	w.fixed = f.All
	_, res := w.runItem(&item{job: j})
	fmt.Printf("SSA form with the recorded schedule: %s %s\n", res.status, firstLines(res.msg, 40))
	if res.status == "violation" || res.status == "steplimit" {
		return 1
	}
	return 0
}
