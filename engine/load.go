package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// overlayFiles maps paths under /repo to the files of /verif/harness that
// stand there while the program is loaded.
func overlayFiles(verif, repo string, extra []string) (map[string]string, error) {
	ov := map[string]string{}
	add := func(dir, dst string) error {
		fs, err := filepath.Glob(filepath.Join(verif, "harness", dir, "*.go"))
		if err != nil {
			return err
		}
		if len(fs) == 0 {
			return fmt.Errorf("no harness files in %s", dir)
		}
		for _, f := range fs {
			ov[filepath.Join(repo, dst, "zzverif_"+filepath.Base(f))] = f
		}
		return nil
	}
	if err := add("vrt", "internal/vrt"); err != nil {
		return nil, err
	}
	if err := add("vh", "internal/vh"); err != nil {
		return nil, err
	}
	for _, e := range extra { // in-package harnesses: "server/client" etc.
		if e == "std:net" {
			// package net with a stand-in for the network
			f, dst, err := patchNet(verif)
			if err != nil {
				return nil, err
			}
			ov[dst] = f
			if err := add("in_std_net", "internal/vh"); err != nil {
				return nil, err
			}
			continue
		}
		if err := add("in_"+strings.ReplaceAll(e, "/", "_"), e); err != nil {
			return nil, err
		}
	}
	return ov, nil
}

func goRoot() (string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	for _, e := range cmd.Env {
		if strings.HasPrefix(e, "PATH=") {
			cmd.Path = filepath.Join(strings.SplitN(e[5:], ":", 2)[0], "go")
			cmd.Err = nil
		}
	}
	b, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("go env GOROOT: %v", err)
	}
	return strings.TrimSpace(string(b)), nil
}

// stdModels are plain versions of files of the standard library that are
// written for speed with unsafe pointers; only the engine sees them.
var stdModels = map[string]string{
	"sync/map.go": `package sync

type Map struct {
	_    noCopy
	mu   Mutex
	keys []any
	m    map[any]any
}

func (m *Map) Load(key any) (value any, ok bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	value, ok = m.m[key]
	return
}
func (m *Map) put(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}
func (m *Map) del(key any) {
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Store(key, value any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.put(key, value)
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}
func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.put(key, value)
	return value, false
}
func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	value, loaded = m.m[key]
	m.del(key)
	return
}
func (m *Map) Delete(key any) { m.LoadAndDelete(key) }
func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	previous, loaded = m.m[key]
	m.put(key, value)
	return
}
func (m *Map) CompareAndSwap(key, old, new any) (swapped bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.put(key, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(key, old any) (deleted bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.del(key)
		return true
	}
	return false
}
func (m *Map) Range(f func(key, value any) bool) {
	m.mu.Lock()
	keys := append([]any(nil), m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
`,
	"sync/pool.go": `package sync

import _ "unsafe"

type Pool struct {
	noCopy noCopy
	New    func() any
	mu     Mutex
	list   []any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.list = append(p.list, x)
	p.mu.Unlock()
}

func (p *Pool) Get() (x any) {
	p.mu.Lock()
	if n := len(p.list); n > 0 {
		x = p.list[n-1]
		p.list = p.list[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func runtime_registerPoolCleanup(cleanup func())
func runtime_procPin() int
func runtime_procUnpin()
`,
}

// patchNet writes a copy of the standard library's net/dial.go in which
// everything that dials or listens asks net.VerifDial or net.VerifListen. It
// returns the copy and the path it stands in for.
func patchNet(verif string) (file, dst string, err error) {
	root, err := goRoot()
	if err != nil {
		return "", "", err
	}
	dst = filepath.Join(root, "src/net/dial.go")
	src, err := os.ReadFile(dst)
	if err != nil {
		return "", "", err
	}
	s := string(src)
	for _, x := range [][2]string{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "\tif VerifDial != nil {\n\t\treturn VerifDial(ctx, d, network, address)\n\t}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "\tif VerifListen != nil {\n\t\treturn VerifListen(ctx, network, address)\n\t}\n"},
	} {
		if strings.Count(s, x[0]) != 1 {
			return "", "", fmt.Errorf("%s has no %q", dst, x[0])
		}
		s = strings.Replace(s, x[0], x[0]+x[1], 1)
	}
	s += `
// VerifDial and VerifListen are the network.
var (
	VerifDial   func(ctx context.Context, d *Dialer, network, address string) (Conn, error)
	VerifListen func(ctx context.Context, network, address string) (Listener, error)
)
`
	out := filepath.Join(verif, "out")
	if err := os.MkdirAll(out, 0755); err != nil {
		return "", "", err
	}
	file = filepath.Join(out, "net_dial.go")
	if old, err := os.ReadFile(file); err == nil && string(old) == s {
		return file, dst, nil
	}
	tmp := fmt.Sprintf("%s.%d", file, os.Getpid())
	if err := os.WriteFile(tmp, []byte(s), 0644); err != nil {
		return "", "", err
	}
	return file, dst, os.Rename(tmp, file)
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{
		"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "CGO_ENABLED": "0",
	}
	if os.Getenv("GOCACHE") == "" {
		set["GOCACHE"] = "/root/.cache/go-build"
	}
	if os.Getenv("GOPATH") == "" {
		set["GOPATH"] = "/root/go"
	}
	if os.Getenv("HOME") == "" {
		set["HOME"] = "/root"
	}
	set["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	var out []string
	for _, e := range env {
		k := e[:strings.IndexByte(e, '=')]
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

func loadProgram(verif, repo string, extra []string) (*Program, *ssa.Package, error) {
	ovf, err := overlayFiles(verif, repo, extra)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range ovf {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	root, err := goRoot()
	if err != nil {
		return nil, nil, err
	}
	for f, src := range stdModels {
		ov[filepath.Join(root, "src", f)] = []byte(src)
	}
	env := goEnv()
	for i, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") {
			env[i] = "GOFLAGS=-mod=readonly"
		}
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: env, Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, "./internal/vh")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{
		prog: prog, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{},
		modPath: "github.com/go-stomp/stomp/v3", vrtPath: vrtPkg, redirect: map[string]*ssa.Function{},
	}
	vrt := prog.ImportedPackage(vrtPkg)
	if vrt == nil {
		return nil, nil, fmt.Errorf("vrt not loaded")
	}
	for std, name := range map[string]string{
		"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
		"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
		"fmt.Printf": "Printf", "fmt.Println": "Println", "fmt.Print": "Print",
		"errors.Is": "Is", "errors.As": "As", "sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice",
	} {
		f := vrt.Func(name)
		if f == nil {
			return nil, nil, fmt.Errorf("vrt.%s missing", name)
		}
		p.redirect[std] = f
	}
	if spkgs[0] == nil {
		return nil, nil, fmt.Errorf("harness package not built")
	}
	return p, spkgs[0], nil
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	// the package that declares the method must have its body built
	if obj, ok := sel.Obj().(*types.Func); ok && obj.Pkg() != nil {
		if pk := p.prog.ImportedPackage(obj.Pkg().Path()); pk != nil && !p.built[pk] {
			p.built[pk] = true
			pk.Build()
		}
	}
	return p.prog.MethodValue(sel)
}
