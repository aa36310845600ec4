package main

// Exhaustive-enumeration engine.
//
// A check is a deterministic generator that emits cases one after another.
// The parent process starts several workers; worker k runs the cases whose index is
// congruent to k. Before a case is run its index is written to a progress file, so that
// a fatal stack overflow, an exit or a hang of the code under test is attributed to
// the exact case, confirmed in a fresh process and reported, and the enumeration goes on.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Run collects what one case observed.
type Run struct {
	Tier  string
	Dir   string // scratch directory of the worker, emptied by the case itself
	evals int64
	viols []Viol
	class []string
	notes map[string]int64
}

// Viol is one observed violation.
type Viol struct {
	Sig    string `json:"sig"` // identifies the failing input/call/history
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

func (r *Run) Eval(n int)             { r.evals += int64(n) }
func (r *Run) Class(s string)         { r.class = append(r.class, s) }
func (r *Run) Note(k string, n int64) { r.notes[k] += n }

// Fail records a violation; the scratch directory is removed from the texts so that they are stable.
func (r *Run) Fail(sig, msg, det string) {
	cut := func(s string) string { return strings.ReplaceAll(s, r.Dir+"/", "") }
	r.viols = append(r.viols, Viol{cut(sig), cut(msg), cut(det)})
}

// Case is one enumerated case.
type Case struct {
	Doc   *DocSet       // the document set of the case, where it has one
	Label func() string // input written out in full
	Run   func(r *Run)
}

// Check describes one property check.
type Check struct {
	ID          string
	Level       string // model_checking | exploration | fault_enumeration
	Rule        string
	Assumptions []string
	Gen         func(tier string, emit func(Case))
	Workers     int
	// Deep checks explore the thorough bounds when quick, and deeper ones when thorough.
	Deep bool
	// Post may add coverage entries from summed notes.
	Post func(cov map[string]any, notes map[string]int64)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type workerStats struct {
	Cases   int64            `json:"cases"`
	Evals   int64            `json:"evals"`
	Notes   map[string]int64 `json:"notes"`
	Hashes  []uint64         `json:"hashes"`
	Samples []string         `json:"samples"`
	Total   int64            `json:"total"`
	Done    bool             `json:"done"`
}

type message struct {
	Viol  *Viol        `json:"viol,omitempty"`
	Idx   int64        `json:"idx"`
	Label string       `json:"label,omitempty"`
	Stats *workerStats `json:"stats,omitempty"`
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// runCase runs one case, turning a panic into a violation.
func runCase(c Case, tier, dir string) (r *Run) {
	r = &Run{Tier: tier, Dir: dir, notes: map[string]int64{}}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			r.Fail("panic:"+shortLabel(c.Label()), fmt.Sprintf("panic: %v", p), trimStack(st))
		}
	}()
	c.Run(r)
	return r
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func shortLabel(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%s…#%016x", s[:300], hash64(s))
	}
	return s
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int64("shard", 0, "")
	n := fs.Int64("n", 1, "")
	from := fs.Int64("from", 0, "")
	only := fs.Int64("only", -1, "")
	dir := fs.String("dir", "", "")
	progress := fs.String("progress", "", "")
	_ = fs.Parse(args)

	c := checks[*id]
	debug.SetMaxStack(48 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	runtime.GOMAXPROCS(2)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "MEMORY: heap above 3 GiB")
				os.Exit(97)
			}
		}
	}()
	// The code under test must not write to the protocol channel.
	real := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	out := bufio.NewWriter(real)
	enc := json.NewEncoder(out)

	var pf *os.File
	if *progress != "" {
		pf, _ = os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0o644)
	}
	seen := map[uint64]struct{}{}
	var fresh []uint64
	st := &workerStats{Notes: map[string]int64{}}
	last := time.Now()
	flush := func(done bool, total int64) {
		st.Hashes = fresh
		fresh = nil
		st.Done = done
		st.Total = total
		_ = enc.Encode(message{Stats: st})
		out.Flush()
		st = &workerStats{Notes: map[string]int64{}}
		last = time.Now()
	}
	var idx int64 = -1
	nsamp := 0
	c.Gen(*tier, func(cs Case) {
		idx++
		if *only >= 0 {
			if idx != *only {
				return
			}
		} else if idx%*n != *shard || idx < *from {
			return
		}
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(idx))
			_, _ = pf.WriteAt(b[:], 0)
		}
		r := runCase(cs, *tier, *dir)
		st.Cases++
		st.Evals += r.evals
		for k, v := range r.notes {
			st.Notes[k] += v
		}
		for _, cl := range r.class {
			h := hash64(cl)
			if _, ok := seen[h]; !ok {
				seen[h] = struct{}{}
				fresh = append(fresh, h)
			}
		}
		if nsamp < 2 && idx%7 == 3 || nsamp == 0 {
			nsamp++
			st.Samples = append(st.Samples, shortLabel(cs.Label()))
		}
		for i := range r.viols {
			_ = enc.Encode(message{Viol: &r.viols[i], Idx: idx, Label: cs.Label()})
			out.Flush()
		}
		if time.Since(last) > 2*time.Second {
			flush(false, 0)
		}
	})
	flush(true, idx+1)
}

// ---------------------------------------------------------------- parent

type found struct {
	Viol
	Idx   int64
	Label string
}

type parent struct {
	c        *Check
	tier     string
	exe      string
	dir      string
	mu       sync.Mutex
	found    []found
	stats    workerStats
	hashes   map[uint64]struct{}
	total    int64
	capped   bool
	crashes  int
	infra    []string
	nw       int
	deadline time.Time
	stop     bool
	known    map[string]bool
	fresh    int
}

func (p *parent) spawn(shard, from, only int64, limit time.Duration) (crashIdx int64, why string, finished bool) {
	wd := filepath.Join(p.dir, fmt.Sprintf("w%d_%d", shard, time.Now().UnixNano()))
	_ = os.MkdirAll(wd, 0o755)
	defer os.RemoveAll(wd)
	prog := filepath.Join(wd, "progress")
	work := filepath.Join(wd, "d")
	_ = os.MkdirAll(work, 0o755)
	cmd := exec.Command(p.exe, "worker", "-id", p.c.ID, "-tier", p.tier, "-shard", strconv.FormatInt(shard, 10),
		"-n", strconv.Itoa(p.nw), "-from", strconv.FormatInt(from, 10), "-only", strconv.FormatInt(only, 10),
		"-dir", work, "-progress", prog)
	var errb tailBuffer
	cmd.Stderr = &errb
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		p.addInfra("pipe: " + err.Error())
		return -1, "", true
	}
	if err := cmd.Start(); err != nil {
		p.addInfra("start worker: " + err.Error())
		return -1, "", true
	}
	readIdx := func() int64 {
		b, err := os.ReadFile(prog)
		if err != nil || len(b) < 8 {
			return -1
		}
		return int64(binary.LittleEndian.Uint64(b))
	}
	killed := ""
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		lastIdx, since := int64(-2), time.Now()
		t := time.NewTicker(250 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-quit:
				return
			case <-t.C:
			}
			if i := readIdx(); i != lastIdx {
				lastIdx, since = i, time.Now()
			}
			p.mu.Lock()
			stop := p.stop
			p.mu.Unlock()
			switch {
			case stop && only < 0:
				killed = "stop"
			case time.Since(since) > limit:
				killed = "hang"
			case time.Now().After(p.deadline) && only < 0:
				killed = "deadline"
			default:
				continue
			}
			_ = cmd.Process.Kill()
			return
		}
	}()
	done := false
	sc := bufio.NewReaderSize(pipe, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 0 {
			var m message
			if json.Unmarshal(line, &m) == nil {
				if m.Viol != nil {
					p.mu.Lock()
					if p.known[m.Viol.Sig] {
						if p.known["#"+m.Viol.Sig] {
							p.mu.Unlock()
							continue
						}
						p.known["#"+m.Viol.Sig] = true
					} else {
						p.fresh++
					}
					p.found = append(p.found, found{*m.Viol, m.Idx, m.Label})
					if p.fresh > 60 && only < 0 && os.Getenv("VH_ALL") == "" {
						p.stop = true
					}
					p.mu.Unlock()
				}
				if m.Stats != nil {
					p.merge(m.Stats)
					done = done || m.Stats.Done
				}
			}
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	close(quit)
	wg.Wait()
	switch {
	case killed == "stop":
		p.mu.Lock()
		p.capped = true
		p.mu.Unlock()
		return -1, "", true
	case killed == "deadline":
		p.mu.Lock()
		p.capped = true
		p.mu.Unlock()
		return -1, "", true
	case killed == "hang":
		return readIdx(), "no progress for " + limit.String(), false
	case done && werr == nil:
		return -1, "", true
	}
	return readIdx(), fmt.Sprintf("worker died (%v): %s", werr, errb.Head()), false
}

type tailBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 6000 {
		n := 6000 - t.b.Len()
		if n > len(p) {
			n = len(p)
		}
		t.b.Write(p[:n])
	}
	return len(p), nil
}
func (t *tailBuffer) Head() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

func (p *parent) addInfra(s string) { p.mu.Lock(); p.infra = append(p.infra, s); p.mu.Unlock() }

func (p *parent) merge(s *workerStats) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.stats.Cases += s.Cases
	p.stats.Evals += s.Evals
	for k, v := range s.Notes {
		p.stats.Notes[k] += v
	}
	for _, h := range s.Hashes {
		p.hashes[h] = struct{}{}
	}
	for _, x := range s.Samples {
		if len(p.stats.Samples) < 8 {
			p.stats.Samples = append(p.stats.Samples, x)
		}
	}
	if s.Total > p.total {
		p.total = s.Total
	}
}

// label regenerates the label of case idx.
func labelOf(c *Check, tier string, idx int64) string {
	var i int64 = -1
	res := ""
	c.Gen(tier, func(cs Case) {
		i++
		if i == idx {
			res = cs.Label()
		}
	})
	return res
}

func (p *parent) shard(k int64) {
	from := int64(0)
	for {
		idx, why, fin := p.spawn(k, from, -1, 25*time.Second)
		if fin {
			return
		}
		if idx < 0 {
			p.addInfra("worker died before its first case: " + why)
			return
		}
		// Confirm in isolation before believing it.
		confirmed := 0
		for t := 0; t < 2; t++ {
			i2, why2, fin2 := p.spawn(k, 0, idx, 60*time.Second)
			if !fin2 && i2 == idx {
				confirmed++
				why = why2
			}
		}
		p.mu.Lock()
		if confirmed == 2 {
			l := labelOf(p.c, p.tier, idx)
			p.found = append(p.found, found{Viol{"crash:" + shortLabel(l), "crash or hang: " + firstLines(why, 3), why}, idx, l})
			p.crashes++
			if p.crashes >= 6 {
				p.stop = true
			}
		} else {
			p.infra = append(p.infra, fmt.Sprintf("unconfirmed worker death at case %d (%d/2): %s", idx, confirmed, firstLines(why, 2)))
		}
		p.mu.Unlock()
		from = idx + 1
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func verifRoot() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}

type knownEntry struct{ Prop, Sig, What string }

// known_findings.txt: {"property":..., "signature":..., "what":...} or {"fixed":"fixed: property=.. commit what"}
func loadKnown() []knownEntry {
	var out []knownEntry
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var m struct{ Property, Signature, What string }
		if json.Unmarshal([]byte(l), &m) == nil && m.Signature != "" {
			out = append(out, knownEntry{m.Property, m.Signature, m.What})
		}
	}
	return out
}

func checkMain(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	start := time.Now()
	exe, _ := os.Executable()
	dir, err := os.MkdirTemp(scratchBase(), "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	nw := 8
	if c.Workers > 0 {
		nw = c.Workers
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	genTier := tier
	if c.Deep {
		genTier = map[string]string{"quick": "thorough", "thorough": "deep"}[tier]
	}
	p := &parent{c: c, tier: genTier, exe: exe, dir: dir, nw: nw, hashes: map[uint64]struct{}{},
		stats: workerStats{Notes: map[string]int64{}}, deadline: time.Now().Add(budget), known: map[string]bool{}}
	known := loadKnown()
	for _, k := range known {
		if k.Prop == id {
			p.known[k.Sig] = true
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int64) { defer wg.Done(); p.shard(k) }(int64(k))
	}
	wg.Wait()

	sort.SliceStable(p.found, func(i, j int) bool { return p.found[i].Idx < p.found[j].Idx })
	var fresh []found
	kf := map[string]bool{}
	for _, f := range p.found {
		isKnown := false
		for _, k := range known {
			if k.Prop == id && k.Sig == f.Sig {
				isKnown = true
				kf[k.Sig] = true
				break
			}
		}
		if !isKnown {
			fresh = append(fresh, f)
		}
	}
	for _, k := range known {
		if kf[k.Sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if path := os.Getenv("VH_ALL"); path != "" { // for development: everything that was found
		b, _ := json.Marshal(fresh)
		_ = os.WriteFile(path, b, 0o644)
	}
	// Re-run ordinary violations five times before believing them.
	var confirmed []found
	for i, f := range fresh {
		if i >= 12 {
			break
		}
		if strings.HasPrefix(f.Sig, "crash:") {
			confirmed = append(confirmed, f)
			continue
		}
		ok := 0
		for t := 0; t < 5 && ok < 2; t++ {
			q := &parent{c: c, tier: genTier, exe: exe, dir: dir, nw: 1, hashes: map[uint64]struct{}{},
				stats: workerStats{Notes: map[string]int64{}}, deadline: time.Now().Add(5 * time.Minute)}
			q.spawn(0, 0, f.Idx, 60*time.Second)
			for _, g := range q.found {
				if g.Sig == f.Sig {
					ok++
					break
				}
			}
		}
		if ok >= 1 {
			confirmed = append(confirmed, f)
			if len(confirmed) >= 4 {
				break
			}
		} else {
			p.addInfra(fmt.Sprintf("violation reproduced only %d/5: case %d %s %s", ok, f.Idx, f.Sig, f.Msg))
		}
	}
	rc := 0
	if len(confirmed) > 0 {
		rc = 1
	}
	for i, f := range confirmed {
		path := writeReplay(id, genTier, i, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s\n", firstLines(f.Msg, 4))
	}
	if len(fresh) > len(confirmed) && rc == 1 {
		fmt.Printf("  (%d further violations not listed)\n", len(fresh)-len(confirmed))
	}
	for _, s := range p.infra {
		fmt.Println("note:", firstLines(s, 3))
	}
	exhaustive := !p.capped && len(p.infra) == 0 && !p.stop
	cov := map[string]any{
		"rule":       c.Rule,
		"samples":    p.stats.Samples,
		"exhaustive": exhaustive,
		"cases":      p.stats.Cases,
		"bound":      tier,
	}
	for k, v := range p.stats.Notes {
		cov[k] = v
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = len(p.hashes)
		cov["transitions"] = p.stats.Evals
		cov["traces_validated_against_impl"] = p.stats.Cases
	default:
		cov["evaluations"] = p.stats.Evals
		cov["distinct_nontrivial"] = len(p.hashes)
	}
	if c.Post != nil {
		c.Post(cov, p.stats.Notes)
	}
	if len(p.infra) > 0 {
		cov["notes"] = p.infra
	}
	writeEvidence(c, tier, cov, len(confirmed), time.Since(start).Seconds())
	fmt.Printf("%s %s: cases=%d evaluations=%d distinct=%d exhaustive=%v violations=%d wall=%.1fs\n", id, tier,
		p.stats.Cases, p.stats.Evals, len(p.hashes), exhaustive, len(confirmed), time.Since(start).Seconds())
	return rc
}

func scratchBase() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if f, err := os.CreateTemp("/dev/shm", "probe"); err == nil {
			n := f.Name()
			f.Close()
			os.Remove(n)
			return "/dev/shm"
		}
	}
	return os.TempDir()
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func writeEvidence(c *Check, tier string, cov map[string]any, viol int, wall float64) {
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed(), "level": c.Level, "coverage": cov,
		"wall_s": wall, "violations": viol, "assumptions": c.Assumptions}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifRoot(), "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(verifRoot(), "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}

func writeReplay(id, tier string, i int, f found) string {
	d := filepath.Join(verifRoot(), "evidence", "replay")
	_ = os.MkdirAll(d, 0o755)
	path := filepath.Join(d, fmt.Sprintf("%s-%d.json", id, i))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "index": f.Idx, "signature": f.Sig,
		"message": f.Msg, "detail": f.Detail, "case": f.Label,
		"replay_cmd": fmt.Sprintf("/verif/check replay %s", path)}, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Property, Tier, Case string
		Index                int64
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Println(err)
		return 2
	}
	c := checks[m.Property]
	dir, _ := os.MkdirTemp(scratchBase(), "verif-replay-")
	defer os.RemoveAll(dir)
	var i int64 = -1
	rc := 0
	fmt.Println(m.Case)
	debug.SetMaxStack(48 << 20)
	c.Gen(m.Tier, func(cs Case) {
		i++
		if i != m.Index {
			return
		}
		r := runCase(cs, m.Tier, dir)
		for _, v := range r.viols {
			rc = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n%s\n", m.Property, path, v.Msg, v.Detail)
		}
	})
	return rc
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh check ID [tier] | worker … | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "race":
		k, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		raceMain(os.Args[2], k, n, os.Args[5])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	case "count":
		n := 0
		checks[os.Args[2]].Gen(os.Args[3], func(c Case) {
			n++
			if len(os.Args) > 4 && n < 40 {
				fmt.Println("-----", n-1)
				fmt.Println(c.Label())
			}
		})
		fmt.Println(n)
	default:
		os.Exit(2)
	}
}
