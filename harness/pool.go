package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A Space is a finite, indexable set of cases; Run executes one of them on the
// real code and compares it with its model.
type Space struct {
	Name  string
	Size  uint64
	Run   func(i uint64, r *Rec)
	Desc  func(i uint64) string // the case in words (used when its process died)
	Init  func()                // once per worker process
	Chunk uint64                // largest chunk handed to a worker (0: default)
	Bound string                // what the bound is, in words
	HangS int                   // CPU seconds without progress that count as "does not return"
	// FreshSig: a process death or hang in this space is a violation with this
	// signature prefix (always the case; prefix defaults to the space name).
	done, viol uint64
}

type Viol struct {
	Space  string `json:"space"`
	Sig    string `json:"sig"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
	Lo     uint64 `json:"lo"`
	Idx    uint64 `json:"idx"`
}

// Rec collects what a chunk of cases produced.
type Rec struct {
	Cases     uint64            `json:"cases"`
	Validated uint64            `json:"validated"`
	Trans     uint64            `json:"trans"`
	Counts    map[string]uint64 `json:"counts"`
	Hashes    []uint64          `json:"hashes"`
	Samples   []string          `json:"samples"`
	Viols     []Viol            `json:"viols"`

	KnownHits []int `json:"known_hits"`

	prop   string
	known  []Known
	space  string
	lo     uint64
	idx    uint64
	seen   map[uint64]struct{}
	replay bool
}

func (r *Rec) Violate(sig, input, detail string) {
	if len(detail) > 6000 {
		detail = detail[:6000] + "..."
	}
	if len(input) > 4000 {
		input = input[:4000] + "..."
	}
	if len(r.known) > 0 {
		sg := sigOf(Viol{Sig: sig, Input: input})
		for ki, k := range r.known {
			if k.Prop == r.prop && k.Sig == sg {
				for _, h := range r.KnownHits {
					if h == ki {
						return
					}
				}
				r.KnownHits = append(r.KnownHits, ki)
				return
			}
		}
	}
	r.Count("violating_cases", 1)
	if len(r.Viols) < 40 || r.replay {
		r.Viols = append(r.Viols, Viol{r.space, sig, input, detail, r.lo, r.idx})
	}
}

func (r *Rec) Count(k string, n uint64) {
	if r.Counts == nil {
		r.Counts = map[string]uint64{}
	}
	r.Counts[k] += n
}

// State records a distinct observed state (outcome) by its canonical text.
func (r *Rec) State(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	v := h.Sum64()
	if _, ok := r.seen[v]; ok {
		return
	}
	if len(r.seen) < 2000000 {
		r.seen[v] = struct{}{}
		r.Hashes = append(r.Hashes, v)
	}
}

func (r *Rec) Sample(s string) {
	if len(r.Samples) < 2 {
		if len(s) > 600 {
			s = s[:600]
		}
		r.Samples = append(r.Samples, s)
	}
}

type PropDef struct {
	ID     string
	Spaces func(tier string) []*Space
	Assume []string
	Budget func(tier string) time.Duration
}

var props = map[string]*PropDef{}

func register(p *PropDef) { props[p.ID] = p }

// ---------------------------------------------------------------- worker

type progress struct{ mem []byte }

func openProgress(path string) *progress {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	must(f.Truncate(4096))
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	f.Close()
	return &progress{m}
}
func (p *progress) set(i uint64) { binary.LittleEndian.PutUint64(p.mem, i+1) }
func (p *progress) get() uint64  { return binary.LittleEndian.Uint64(p.mem) }
func (p *progress) clear()       { binary.LittleEndian.PutUint64(p.mem, 0) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func workerMain(prop, tier, progFile string) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	out := os.NewFile(3, "results")
	enc := json.NewEncoder(out)
	pg := openProgress(progFile)
	spaces := props[prop].Spaces(tier)
	known := loadKnown()
	inited := map[int]bool{}
	seen := map[uint64]struct{}{}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var si int
		var lo, hi uint64
		fmt.Sscan(in.Text(), &si, &lo, &hi)
		s := spaces[si]
		if !inited[si] && s.Init != nil {
			s.Init()
		}
		inited[si] = true
		r := &Rec{space: s.Name, lo: lo, seen: seen, prop: prop, known: known}
		t0 := stepsNow()
		for i := lo; i < hi; i++ {
			pg.set(i)
			r.idx = i
			s.Run(i, r)
			r.Cases++
		}
		r.Trans += stepsNow() - t0
		pg.clear()
		must(enc.Encode(r))
	}
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	res    *json.Decoder
	pg     *progress
	dir    string
	errf   string
	resF   *os.File
	killed string
	mu     sync.Mutex
}

func startWorker(prop, tier, dir string, n int) *worker {
	w := &worker{dir: dir}
	pf := filepath.Join(dir, fmt.Sprintf("p%d", n))
	w.pg = openProgress(pf)
	w.pg.clear()
	w.errf = filepath.Join(dir, fmt.Sprintf("e%d", n))
	ef, err := os.Create(w.errf)
	must(err)
	wd := filepath.Join(dir, fmt.Sprintf("wd%d", n))
	os.MkdirAll(wd, 0o755)
	exe, _ := os.Executable()
	w.cmd = exec.Command(exe, "worker", prop, tier, pf)
	w.cmd.Dir = wd
	w.cmd.Stderr = ef
	w.cmd.Env = append(os.Environ(), "VZ_SCRATCH="+wd)
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	rp, wp, err := os.Pipe()
	must(err)
	w.cmd.ExtraFiles = []*os.File{wp}
	w.in, err = w.cmd.StdinPipe()
	must(err)
	must(w.cmd.Start())
	wp.Close()
	ef.Close()
	w.resF = rp
	w.res = json.NewDecoder(bufio.NewReaderSize(rp, 1<<20))
	return w
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+1:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// runChunk runs [lo,hi) of space si; on the death of the worker it reports how
// far it got.  ok=false means the worker must be replaced.
func (w *worker) runChunk(s *Space, si int, lo, hi uint64) (r *Rec, ok bool, why string, at uint64) {
	hang := s.HangS
	if hang == 0 {
		hang = 30
	}
	fmt.Fprintf(w.in, "%d %d %d\n", si, lo, hi)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	hung := false
	go func() {
		defer wg.Done()
		last := uint64(0)
		cpu0 := cpuSeconds(w.cmd.Process.Pid)
		t0 := time.Now()
		tk := time.NewTicker(500 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tk.C:
				cur := w.pg.get()
				cpu := cpuSeconds(w.cmd.Process.Pid)
				if cur != last {
					last, cpu0, t0 = cur, cpu, time.Now()
					continue
				}
				if cpu-cpu0 > float64(hang) || (time.Since(t0) > 2*time.Duration(hang)*time.Second && cpu-cpu0 < 2) {
					hung = true
					w.cmd.Process.Kill()
					return
				}
			}
		}
	}()
	r = &Rec{}
	err := w.res.Decode(r)
	close(stop)
	wg.Wait()
	if err == nil {
		return r, true, "", 0
	}
	at = w.pg.get()
	werr := w.cmd.Wait()
	w.resF.Close()
	if at == 0 {
		at = lo + 1
	}
	at--
	if hung {
		return nil, false, fmt.Sprintf("does not return (%d s of CPU time on this case)", hang), at
	}
	msg := ""
	if b, e := os.ReadFile(w.errf); e == nil {
		msg = crashHead(string(b))
	}
	return nil, false, fmt.Sprintf("process died: %v: %s", werr, msg), at
}

func crashHead(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			out = append(out, l)
		}
		if strings.Contains(l, "zygo.") && !strings.Contains(l, "created by") && len(out) < 8 {
			if k := strings.IndexByte(l, '('); k > 0 {
				out = append(out, strings.TrimSpace(l[strings.LastIndexByte(l[:k], '/')+1:]))
			}
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func (w *worker) close() {
	w.in.Close()
	done := make(chan bool)
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
	w.resF.Close()
}

// ---------------------------------------------------------------- parent

type job struct {
	si     int
	lo, hi uint64
}

type result struct {
	total  Rec
	viols  []Viol
	exh    bool
	states map[uint64]struct{}
	known  map[int]bool
	crash  uint64
}

func runAll(prop, tier string, spaces []*Space, deadline time.Time, nw int) *result {
	dir, err := os.MkdirTemp("", "vz"+prop+"-")
	must(err)
	os.Chmod(dir, 0o755)
	defer os.RemoveAll(dir)
	res := &result{exh: true, states: map[uint64]struct{}{}, known: map[int]bool{}}
	res.total.Counts = map[string]uint64{}
	var mu sync.Mutex
	si, next := 0, uint64(0)
	var requeue []job
	take := func() (job, bool) {
		mu.Lock()
		defer mu.Unlock()
		if len(requeue) > 0 {
			j := requeue[len(requeue)-1]
			requeue = requeue[:len(requeue)-1]
			return j, true
		}
		for si < len(spaces) && next >= spaces[si].Size {
			si++
			next = 0
		}
		if si >= len(spaces) {
			return job{}, false
		}
		if time.Now().After(deadline) || len(res.viols) > 400 || res.crash > 16 {
			res.exh = false
			return job{}, false
		}
		s := spaces[si]
		c := s.Size / uint64(nw*24)
		max := s.Chunk
		if max == 0 {
			max = 2000
		}
		if c > max {
			c = max
		}
		if c < 1 {
			c = 1
		}
		lo := next
		hi := lo + c
		if hi > s.Size {
			hi = s.Size
		}
		next = hi
		return job{si, lo, hi}, true
	}
	var wg sync.WaitGroup
	for n := 0; n < nw; n++ {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.close()
				}
			}()
			for {
				j, ok := take()
				if !ok {
					return
				}
				if w == nil {
					w = startWorker(prop, tier, dir, n)
				}
				s := spaces[j.si]
				r, ok, why, at := w.runChunk(s, j.si, j.lo, j.hi)
				mu.Lock()
				if ok {
					s.done += r.Cases
					merge(res, r)
				} else {
					w = nil
					res.crash++
					in := ""
					if s.Desc != nil {
						in = s.Desc(at)
					}
					sig := "died: " + why
					if strings.Contains(why, "does not return") {
						sig = "hang"
					} else if k := strings.Index(why, "fatal error:"); k >= 0 {
						sig = "died: " + why[k:]
					} else if k := strings.Index(why, "panic:"); k >= 0 {
						sig = "died: " + why[k:]
					}
					res.viols = append(res.viols, Viol{s.Name, sig, in, why, at, at})
					if at > j.lo {
						requeue = append(requeue, job{j.si, j.lo, at})
					}
					if at+1 < j.hi {
						requeue = append(requeue, job{j.si, at + 1, j.hi})
					}
					s.done++
				}
				mu.Unlock()
			}
		}(n)
	}
	wg.Wait()
	for _, s := range spaces {
		if s.done < s.Size {
			res.exh = false
		}
	}
	return res
}

func merge(res *result, r *Rec) {
	t := &res.total
	t.Cases += r.Cases
	t.Validated += r.Validated
	t.Trans += r.Trans
	for k, v := range r.Counts {
		t.Counts[k] += v
	}
	for _, h := range r.Hashes {
		res.states[h] = struct{}{}
	}
	if len(t.Samples) < 12 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	for _, k := range r.KnownHits {
		res.known[k] = true
	}
	res.viols = append(res.viols, r.Viols...)
}

// reproduce re-runs a violation alone in fresh processes; if that does not show
// it, it re-runs the chunk up to it.
func reproduce(prop, tier string, spaces []*Space, v *Viol, times int) bool {
	si := -1
	for i, s := range spaces {
		if s.Name == v.Space {
			si = i
		}
	}
	if si < 0 {
		return false
	}
	try := func(lo uint64) bool {
		dir, err := os.MkdirTemp("", "vzr-")
		must(err)
		os.Chmod(dir, 0o755)
		defer os.RemoveAll(dir)
		w := startWorker(prop, tier, dir, 0)
		r, ok, _, _ := w.runChunk(spaces[si], si, lo, v.Idx+1)
		if !ok {
			return true
		}
		w.close()
		for _, x := range r.Viols {
			if x.Idx == v.Idx {
				return true
			}
		}
		return false
	}
	all := func(lo uint64) bool {
		for k := 0; k < times; k++ {
			if !try(lo) {
				return false
			}
		}
		return true
	}
	if all(v.Idx) {
		v.Lo = v.Idx
		return true
	}
	return v.Lo < v.Idx && all(v.Lo)
}

type Known struct {
	Prop, Sig, What string
}

func loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		f := strings.SplitN(l, " ", 2)
		if len(f) != 2 || !strings.HasPrefix(f[1], "sig=") {
			continue
		}
		g := strings.SplitN(f[1][4:], " :: ", 2)
		what := ""
		if len(g) == 2 {
			what = g[1]
		}
		ks = append(ks, Known{f[0], strings.TrimSpace(g[0]), what})
	}
	return ks
}

func oneLine(s string) string {
	return strings.Join(strings.Fields(strings.ReplaceAll(s, "\n", `\n`)), " ")
}

// sigOf is what a known-findings entry names: the signature and the input.
func sigOf(v Viol) string {
	return oneLine(v.Sig + " @ " + v.Input)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func checkMain(prop, tier string) int {
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	start := time.Now()
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if p.Budget != nil {
		budget = p.Budget(tier)
	}
	if s := os.Getenv("VZ_BUDGET"); s != "" {
		d, err := time.ParseDuration(s)
		must(err)
		budget = d
	}
	spaces := p.Spaces(tier)
	if f := os.Getenv("VZ_SPACE"); f != "" {
		var keep []*Space
		for _, s := range spaces {
			if strings.Contains(s.Name, f) {
				keep = append(keep, s)
			}
		}
		fmt.Fprintln(os.Stderr, "note: VZ_SPACE filters spaces; worker indices differ, debugging only")
		for _, s := range spaces {
			found := false
			for _, k := range keep {
				if k == s {
					found = true
				}
			}
			if !found {
				s.Size = 0
			}
		}
	}
	res := runAll(prop, tier, spaces, start.Add(budget), runtime.NumCPU())

	// classify
	known := loadKnown()
	knownHit := res.known
	var fresh []Viol
	seenSig := map[string]int{}
	sort.SliceStable(res.viols, func(a, b int) bool {
		if res.viols[a].Space != res.viols[b].Space {
			return false
		}
		return res.viols[a].Idx < res.viols[b].Idx
	})
	for _, v := range res.viols {
		sg := sigOf(v)
		hit := false
		for ki, k := range known {
			if k.Prop == prop && k.Sig == sg {
				knownHit[ki] = true
				hit = true
			}
		}
		if hit {
			continue
		}
		fresh = append(fresh, v)
	}
	for ki, k := range known {
		if k.Prop == prop && knownHit[ki] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, oneLine(k.What+" ["+k.Sig+"]"))
		}
	}
	rdir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	confirmed := 0
	flaky := 0
	maxRep := 12
	if os.Getenv("VZ_ALL") != "" {
		maxRep = 100
	}
	for _, v := range fresh {
		if seenSig[v.Sig] >= 2 && os.Getenv("VZ_ALL") == "" {
			continue
		}
		if confirmed >= maxRep {
			break
		}
		seenSig[v.Sig]++
		times := 3
		if strings.HasPrefix(v.Sig, "hang") {
			times = 1
		}
		if os.Getenv("VZ_ALL") != "" {
			times = 1
		}
		if !reproduce(prop, tier, spaces, &v, times) {
			flaky++
			fmt.Fprintf(os.Stderr, "not reproduced, dropped: %s %s #%d %s\n  %s\n", v.Space, v.Sig, v.Idx, oneLine(v.Input), v.Detail)
			continue
		}
		confirmed++
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, confirmed))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "tier": tier, "violation": v}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  space=%s case=%d sig=%s\n  input: %s\n  %s\n", v.Space, v.Idx, v.Sig, v.Input, strings.ReplaceAll(clip(v.Detail, 500), "\n", "\n  "))
	}
	var sp []map[string]any
	for _, s := range spaces {
		sp = append(sp, map[string]any{"space": s.Name, "bound": s.Bound, "size": s.Size, "covered": s.done, "exhaustive": s.done >= s.Size})
	}
	samples := res.total.Samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        len(res.states),
			"transitions":                   res.total.Trans,
			"traces_validated_against_impl": res.total.Validated,
			"executions":                    res.total.Cases,
			"samples":                       samples,
			"exhaustive":                    res.exh,
			"spaces":                        sp,
			"counts":                        res.total.Counts,
			"rule":                          "states: distinct observed outcomes/model states; transitions: VM instructions and model operations executed; traces_validated: executions of the real code compared with the reference model; executions: cases run",
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  confirmed,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	must(os.WriteFile(filepath.Join(edir, prop+".json"), b, 0o644))
	fmt.Printf("%s %s: %d executions, %d distinct states, %d transitions, %d compared, exhaustive=%v, %d violations (%d raw, %d unreproduced), %.1fs\n",
		prop, tier, res.total.Cases, len(res.states), res.total.Trans, res.total.Validated, res.exh, confirmed, len(res.viols), flaky, time.Since(start).Seconds())
	for _, s := range spaces {
		fmt.Printf("  %-28s %d/%d %s\n", s.Name, s.done, s.Size, s.Bound)
	}
	if len(res.total.Counts) > 0 {
		var ks []string
		for k := range res.total.Counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  count %-24s %d\n", k, res.total.Counts[k])
		}
	}
	if confirmed > 0 {
		return 1
	}
	return 0
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var d struct {
		Property, Tier string
		Violation      Viol
	}
	must(json.Unmarshal(b, &d))
	spaces := props[d.Property].Spaces(d.Tier)
	for _, s := range spaces {
		if s.Name != d.Violation.Space {
			continue
		}
		if s.Init != nil {
			s.Init()
		}
		r := &Rec{space: s.Name, seen: map[uint64]struct{}{}, replay: true}
		for i := d.Violation.Lo; i <= d.Violation.Idx; i++ {
			r.idx = i
			if s.Desc != nil && i == d.Violation.Idx {
				fmt.Println("case:", s.Desc(i))
			}
			s.Run(i, r)
		}
		for _, v := range r.Viols {
			if v.Idx == d.Violation.Idx {
				fmt.Printf("VIOLATION property=%s replay=%s\n  sig=%s\n  input: %s\n  %s\n", d.Property, file, v.Sig, v.Input, v.Detail)
				return 1
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println("no such space")
	return 2
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
