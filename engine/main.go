package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/wenerme/go-miniquery"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type entryCfg struct {
	Entry    string         `json:"entry"`
	What     string         `json:"what"`
	Params   map[string]int `json:"params"`
	Thorough map[string]int `json:"thorough"`
	Time     int            `json:"time"`  // quick budget, seconds
	TimeT    int            `json:"timeT"` // thorough budget
	Labels   []string       `json:"labels"`
	OnlyT    bool           `json:"thoroughOnly"`
	Perm     []string       `json:"permuteMaps"`
}

type checkCfg struct {
	Entries []entryCfg `json:"entries"`
	Outside []string   `json:"outside"`
}

// modFile is a copy of the module file, so that the go command never writes to the repository.
var modFile string

func copyMod(tmp string) error {
	modFile = filepath.Join(tmp, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOPATH", "GOCACHE", "GOSUMDB", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	get := func(k, d string) string {
		if v := os.Getenv(k); v != "" {
			return v
		}
		return d
	}
	goBin := "/opt/veriftools/go1.25.14/bin"
	env = append(env, "PATH="+goBin+":"+os.Getenv("PATH"), "GOFLAGS=-mod=mod -modfile="+modFile, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOSUMDB=off", "CGO_ENABLED=0", "GOPATH="+get("GOPATH", "/root/go"), "GOCACHE="+get("GOCACHE", "/root/.cache/go-build"))
	return env
}

// overlayFiles maps virtual files inside the module to harness sources.
func overlayFiles() map[string]string {
	m := map[string]string{}
	for _, d := range []string{"sx", "hx", "native"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repoDir, "zzverif", d, filepath.Base(f))] = f
		}
	}
	if f := os.Getenv("GOSX_EXTRA"); f != "" {
		m[filepath.Join(repoDir, "zzverif", "hx", filepath.Base(f))] = f
	}
	return m
}

func buildNative(tmp string) (string, error) {
	ov := map[string]map[string]string{"Replace": overlayFiles()}
	b, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "native")
	cmd := exec.Command("/opt/veriftools/go1.25.14/bin/go", "build", "-overlay", of, "-o", bin, "./zzverif/native")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

func load() (*ssa.Program, map[string]*ssa.Package, error) {
	ov := map[string][]byte{}
	for k, v := range overlayFiles() {
		if strings.Contains(k, "/native/") {
			continue
		}
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov}
	os.Setenv("PATH", "/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"))
	pkgs, err := packages.Load(cfg, "./zzverif/hx")
	if err != nil {
		return nil, nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	})
	if bad != "" {
		return nil, nil, fmt.Errorf("load: %s", bad)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	m := map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		m[p.Pkg.Path()] = p
	}
	return prog, m, nil
}

// ---- native replay

type nreq struct {
	E string         `json:"e"`
	P map[string]int `json:"p"`
	V []uint64       `json:"v"`
}
type nresp struct {
	S string   `json:"s"`
	M string   `json:"m"`
	O []string `json:"o"`
	K []string `json:"k"`
}

type native struct {
	bin  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *strings.Builder
	ch   chan []byte
}

func (n *native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=none")
	n.in, _ = n.cmd.StdinPipe()
	o, _ := n.cmd.StdoutPipe()
	n.errb = &strings.Builder{}
	n.cmd.Stderr = n.errb
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.out = bufio.NewReaderSize(o, 1<<20)
	n.ch = make(chan []byte)
	rd, ch := n.out, n.ch
	go func() {
		for {
			b, err := rd.ReadBytes('\n')
			if err != nil {
				close(ch)
				return
			}
			ch <- b
		}
	}()
	return nil
}

func (n *native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

const nativeTimeout = 20 * time.Second

func (n *native) run(r nreq) nresp {
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return nresp{S: "error", M: err.Error()}
		}
	}
	b, _ := json.Marshal(r)
	n.in.Write(append(b, '\n'))
	select {
	case line, ok := <-n.ch:
		if !ok {
			n.cmd.Wait()
			m := firstLine(n.errb.String())
			n.cmd = nil
			return nresp{S: "crash", M: "process died: " + m}
		}
		var x nresp
		if err := json.Unmarshal(line, &x); err != nil {
			return nresp{S: "error", M: err.Error()}
		}
		return x
	case <-time.After(nativeTimeout):
		n.stop()
		return nresp{S: "hang", M: "no result within " + nativeTimeout.String()}
	}
}

// ---- checking one entry

type entryResult struct {
	cfg        entryCfg
	params     map[string]int
	sh         *Shared
	wall       float64
	validated  int
	mismatch   int
	spurious   int
	confirmed  []confirmed
	known      map[string]string
	samples    []map[string]any
	mismatches []string
	errNative  int
}

type confirmed struct {
	rec  pathRec
	resp nresp
	by   string
}

func runEntry(prog *ssa.Program, pkgs map[string]*ssa.Package, ec entryCfg, params map[string]int, budget time.Duration, nbin string, workers int, maxViol int) (*entryResult, error) {
	hx := pkgs[modPath+"/zzverif/hx"]
	fn := hx.Func(ec.Entry)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", ec.Entry)
	}
	sh := &Shared{prog: prog, entry: fn, params: params, pkgs: pkgs, solver: NewSolverShared("z3", 5000), permPkgs: ec.Perm,
		fnSeen: map[*ssa.Function]bool{}, intrSeen: map[string]bool{}, initNote: map[string]string{},
		unsup: map[string]int{}, limits: map[string]int{}, reach: map[string]int{}}
	sh.cond = sync.NewCond(&sh.mu)
	if rp := pkgs["runtime"]; rp != nil {
		if t := rp.Type("errorString"); t != nil {
			sh.runtimeErrT = t.Type()
		}
	}
	if rp := pkgs["reflect"]; rp != nil {
		if t := rp.Type("rtype"); t != nil {
			sh.rtypePtrT = types.NewPointer(t.Type())
		}
	}
	res := &entryResult{cfg: ec, params: params, sh: sh, known: map[string]string{}}
	t0 := time.Now()
	sh.deadline = t0.Add(budget)
	sh.queue = []workItem{{}}
	ch := make(chan pathRec, 1024)
	sh.emit = func(r pathRec) { ch <- r }
	var rmu sync.Mutex
	var rwg sync.WaitGroup
	seen := 0
	for i := 0; i < 3; i++ {
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			n := &native{bin: nbin}
			defer n.stop()
			for r := range ch {
				x := n.run(nreq{E: ec.Entry, P: params, V: r.Vec})
				rmu.Lock()
				seen++
				bad := x.S == "violation" || x.S == "panic" || x.S == "crash" || x.S == "hang"
				for _, k := range x.K {
					if _, ok := res.known[k]; !ok {
						res.known[k] = fmt.Sprint(r.Vec)
					}
				}
				switch {
				case bad:
					by := "solver counterexample"
					if r.Status != "violation" {
						by = "replay of a path model (status " + r.Status + ")"
					}
					res.confirmed = append(res.confirmed, confirmed{r, x, by})
					if len(res.confirmed) >= maxViol {
						sh.mu.Lock()
						sh.stop = true
						sh.cond.Broadcast()
						sh.mu.Unlock()
					}
				case x.S == "error" || x.S == "noentry":
					res.errNative++
				case r.Status == "violation":
					res.spurious++
					if len(res.mismatches) < 20 {
						res.mismatches = append(res.mismatches, fmt.Sprintf("spurious %q vec=%v native=%s", r.Msg, r.Vec, x.S))
					}
				case r.Status == "ok":
					if x.S != "ok" || strings.Join(x.O, "\x00") != strings.Join(quoteAll(r.Obs), "\x00") {
						res.mismatch++
						if len(res.mismatches) < 20 {
							res.mismatches = append(res.mismatches, fmt.Sprintf("vec=%v engine=%v native=%s %s %v", r.Vec, quoteAll(r.Obs), x.S, x.M, x.O))
						}
					} else {
						res.validated++
						if len(res.samples) < 6 && (seen%97 == 1 || len(res.samples) == 0) {
							res.samples = append(res.samples, map[string]any{"entry": ec.Entry, "inputs": r.Vec, "observed": x.O})
						}
					}
				}
				rmu.Unlock()
			}
		}()
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := NewWorker(sh)
			defer w.solver.Close()
			w.loop()
		}()
	}
	if os.Getenv("GOSX_PROGRESS") != "" {
		stopP := make(chan bool)
		defer close(stopP)
		go func() {
			for {
				select {
				case <-stopP:
					return
				case <-time.After(2 * time.Second):
					sh.mu.Lock()
					fmt.Fprintf(os.Stderr, "  %s %.0fs paths=%d ok=%d queue=%d queries=%d hits=%d unsup=%d steps=%d ch=%d\n", ec.Entry, time.Since(t0).Seconds(), sh.paths, sh.okPaths, len(sh.queue), sh.solver.Queries.Load(), sh.solver.Hits.Load(), len(sh.unsup), sh.stepsTotal, len(ch))
					sh.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	close(ch)
	rwg.Wait()
	res.wall = time.Since(t0).Seconds()
	return res, nil
}

func quoteAll(s []string) []string {
	r := make([]string, len(s))
	for i := range s {
		r[i] = strconv.Quote(s[i])
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("entry", "", "run only this entry")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	setp := flag.String("set", "", "override params k=v,k=v")
	timeo := flag.Int("time", 0, "override budget seconds")
	maxViol := flag.Int("maxviol", 1, "stop after this many confirmed violations")
	replay := flag.String("replay", "", "replay file")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()

	if s := os.Getenv("GOSX_REPO"); s != "" {
		repoDir = s
	}
	tmp, err := os.MkdirTemp("", "gosx")
	if err != nil {
		fatal(err)
	}
	code := 0
	func() {
		defer os.RemoveAll(tmp)
		if err := copyMod(tmp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = 3
			return
		}
		if *replay != "" {
			code = doReplay(tmp, *replay)
			return
		}
		code = doCheck(tmp, *prop, *tier, *only, *workers, *setp, *timeo, *maxViol, *verbose)
	}()
	os.Exit(code)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosx:", err)
	os.Exit(3)
}

func doReplay(tmp, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Property string `json:"property"`
		Request  nreq   `json:"request"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	bin, err := buildNative(tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	n := &native{bin: bin}
	x := n.run(r.Request)
	n.stop()
	fmt.Printf("%s %s\n", x.S, x.M)
	if x.S == "violation" || x.S == "panic" || x.S == "crash" || x.S == "hang" {
		return 1
	}
	return 0
}

func doCheck(tmp, prop, tier, only string, workers int, setp string, timeo, maxViol int, verbose bool) int {
	t0 := time.Now()
	var cfgs map[string]checkCfg
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 3
	}
	cc, ok := cfgs[prop]
	if !ok && only == "" {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 3
	}
	if !ok {
		cc = checkCfg{Entries: []entryCfg{{Entry: only, Time: 60}}}
	}
	nbin, err := buildNative(tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tb := time.Since(t0)
	prog, pkgs, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tl := time.Since(t0)
	fmt.Printf("# %s %s: native build %.1fs, load+SSA %.1fs\n", prop, tier, tb.Seconds(), (tl - tb).Seconds())
	tStart := time.Now()
	knownList := readKnown(filepath.Join(verifDir, "KNOWN_FINDINGS"), prop)
	var results []*entryResult
	viol := 0
	var todo []entryCfg
	for _, ec := range cc.Entries {
		if only != "" && ec.Entry != only {
			continue
		}
		if ec.OnlyT && tier != "thorough" && only == "" {
			continue
		}
		todo = append(todo, ec)
	}
	for i, ec := range todo {
		params := map[string]int{}
		for k, v := range ec.Params {
			params[k] = v
		}
		budget := ec.Time
		if budget == 0 {
			budget = 60
		}
		if tier == "thorough" {
			for k, v := range ec.Thorough {
				params[k] = v
			}
			budget *= 4
			if ec.TimeT > 0 {
				budget = ec.TimeT
			}
		}
		if setp != "" {
			for _, kv := range strings.Split(setp, ",") {
				p := strings.SplitN(kv, "=", 2)
				n, _ := strconv.Atoi(p[1])
				params[p[0]] = n
			}
		}
		if tier != "thorough" {
			// time that earlier entries left over
			if share := (quickTotal - int(time.Since(tStart).Seconds())) / (len(todo) - i); share > budget {
				budget = share
			}
		}
		if timeo > 0 {
			budget = timeo
		}
		r, err := runEntry(prog, pkgs, ec, params, time.Duration(budget)*time.Second, nbin, workers, maxViol)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		results = append(results, r)
		printEntry(r, verbose)
		for id, ex := range r.known {
			if what, ok := knownList[id]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, what)
			} else {
				r.confirmed = append(r.confirmed, confirmed{rec: pathRec{Msg: "unlisted finding " + id + " inputs " + ex}, by: "finding"})
			}
		}
		if len(r.confirmed) > 0 {
			c := r.confirmed[0]
			viol++
			rf := filepath.Join(verifDir, "evidence", fmt.Sprintf("%s.replay.json", prop))
			os.MkdirAll(filepath.Dir(rf), 0o755)
			jb, _ := json.MarshalIndent(map[string]any{"property": prop, "message": c.rec.Msg, "native": c.resp, "found_by": c.by,
				"request": nreq{E: ec.Entry, P: params, V: c.rec.Vec}}, "", " ")
			os.WriteFile(rf, jb, 0o644)
			fmt.Printf("  counterexample in %s: %s | native: %s %s\n", ec.Entry, c.rec.Msg, c.resp.S, c.resp.M)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
			break
		}
	}
	writeEvidence(prop, tier, cc, results, time.Since(t0).Seconds(), viol)
	if viol > 0 {
		return 1
	}
	if m := inconclusive(results); m != "" {
		fmt.Fprintln(os.Stderr, "gosx: inconclusive:", m)
		return 3
	}
	return 0
}

// quickTotal is the time in seconds that the entries of a quick check share.
const quickTotal = 480

// readKnown reads "known: property=<id> <finding-id> <text>" lines.
func readKnown(file, prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop {
			m[f[2]] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func printEntry(r *entryResult, verbose bool) {
	sh := r.sh
	fmt.Printf("  %s %v: paths=%d (ok %d, assumed-out %d) branches=%d forced=%d asserts=%d/%d queries=%d (cache %d, unknown %d) solver=%.1fs wall=%.1fs validated=%d mismatch=%d spurious=%d maxlen=%d Msteps=%d\n",
		r.cfg.Entry, r.params, sh.paths, sh.okPaths, sh.assumed, sh.branches, sh.forced, sh.asserts, sh.assertsSym, sh.solver.Queries.Load(), sh.solver.Hits.Load(), sh.solver.UnknownN.Load(),
		float64(sh.solver.TimeNs.Load())/1e9, r.wall, r.validated, r.mismatch, r.spurious, sh.maxPathLen, sh.stepsTotal/1000000)
	if sh.timedOut {
		fmt.Printf("    budget exhausted, %d paths pending\n", sh.pending)
	}
	for k, n := range sh.unsup {
		fmt.Printf("    unsupported (%d paths): %s\n", n, k)
	}
	for k, n := range sh.limits {
		fmt.Printf("    limit %s on %d paths\n", k, n)
	}
	for _, l := range r.cfg.Labels {
		if sh.reach[l] == 0 && len(r.confirmed) == 0 {
			fmt.Printf("    label %s not reached\n", l)
		}
	}
	for _, m := range r.mismatches {
		fmt.Printf("    MISMATCH %s\n", m)
	}
	if e := sh.solver.Errors.Load(); e > 0 {
		fmt.Printf("    solver errors: %d %v\n", e, sh.solver.errText.Load())
	}
	if verbose {
		var ks []string
		for k, n := range sh.reach {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(ks)
		fmt.Println("    reach:", strings.Join(ks, " "))
		for p, m := range sh.initNote {
			fmt.Println("    init incomplete:", p, m)
		}
	}
}
