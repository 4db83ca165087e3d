package vk

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Main is the entry point of the check binaries.
//
//	vX run ID          parent
//	vX worker ID shard shards start dir
//	vX replay FILE
func Main(checks []*Check) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: run ID | replay FILE")
		os.Exit(2)
	}
	find := func(id string) *Check {
		for _, c := range checks {
			if c.ID == id {
				return c
			}
		}
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
		return nil
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runParent(find(os.Args[2])))
	case "worker":
		runWorker(find(os.Args[2]))
	case "israce":
		if find(os.Args[2]).Race {
			os.Exit(0)
		}
		os.Exit(1)
	case "jsoverlay":
		if err := jsOverlay(os.Args[2], os.Args[3], os.Args[4], os.Args[5]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "genoverlay":
		if err := genOverlay(os.Args[2], os.Args[3], os.Args[4], os.Args[5]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	case "arch":
		fmt.Println(find(os.Args[2]).Arch)
	case "replay":
		var rp replay
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		w := newWorker(find(rp.Property), rp.Seed, rp.Tier)
		w.exec(rp.Case)
		for _, v := range w.violations {
			fmt.Printf("%s: %s\n", v.Key, v.Msg)
		}
		if len(w.violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("held")
	}
}

type replay struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Key      string `json:"key"`
	Msg      string `json:"msg"`
	How      string `json:"how"`
}

func newWorker(ck *Check, seed int64, tier string) *Worker {
	w := &Worker{
		Check:    ck,
		Seed:     seed,
		Tier:     tier,
		hashes:   map[uint64]struct{}{},
		counters: map[string]int64{},
	}
	if ck.Init != nil {
		ck.Init(w)
	}
	return w
}

func (w *Worker) exec(i int) {
	c := &Ctx{W: w, Index: i, Rng: rand.New(rand.NewSource(CaseSeed(w.Seed, w.Check.ID, i)))}
	c.Guard("case", func() { w.Check.Case(c) })
}

func (ck *Check) n(tier string) int {
	if tier == "thorough" {
		return ck.Thorough
	}
	n := ck.Quick
	// for development only
	if p, err := strconv.Atoi(os.Getenv("VERIF_PERCENT")); err == nil && p > 0 {
		n = n*p/100 + 1
	}
	return n
}

// --- worker

type workerResult struct {
	Done       bool             `json:"done"`
	Evals      int64            `json:"evals"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Cases      int              `json:"cases"`
}

func runWorker(ck *Check) {
	shard, _ := strconv.Atoi(os.Args[3])
	shards, _ := strconv.Atoi(os.Args[4])
	start, _ := strconv.Atoi(os.Args[5])
	dir := os.Args[6]
	seed, tier := envSeedTier()
	w := newWorker(ck, seed, tier)
	cur, err := os.OpenFile(filepath.Join(dir, "cur"), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	n := ck.n(tier)
	var buf [8]byte
	cases := 0
	flush := func(done bool) {
		var hb bytes.Buffer
		w.mu.Lock()
		for h := range w.hashes {
			binary.Write(&hb, binary.LittleEndian, h)
		}
		res := workerResult{done, w.evals, w.counters, w.samples, w.violations, cases}
		j, _ := json.Marshal(res)
		w.mu.Unlock()
		os.WriteFile(filepath.Join(dir, "hashes.tmp"), hb.Bytes(), 0o644)
		os.Rename(filepath.Join(dir, "hashes.tmp"), filepath.Join(dir, "hashes"))
		os.WriteFile(filepath.Join(dir, "result.tmp"), j, 0o644)
		os.Rename(filepath.Join(dir, "result.tmp"), filepath.Join(dir, "result"))
	}
	last := time.Now()
	for i := shard; i < n; i += shards {
		if i < start {
			continue
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		cur.WriteAt(buf[:], 0)
		w.exec(i)
		cases++
		if len(w.violations) >= 10 {
			break
		}
		if time.Since(last) > 2*time.Second {
			flush(false)
			last = time.Now()
		}
	}
	binary.LittleEndian.PutUint64(buf[:], 0)
	cur.WriteAt(buf[:], 0)
	flush(true)
	os.Exit(0)
}

func envSeedTier() (int64, string) {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

// --- parent

type shardState struct {
	res     workerResult
	hashes  map[uint64]struct{}
	viols   []Violation
	crashes int
	races   int
	note    string // inconclusive reason
}

func runParent(ck *Check) int {
	t0 := time.Now()
	seed, tier := envSeedTier()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	out := filepath.Join(root, "out", ck.ID)
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	shards := ck.Shards
	if shards == 0 {
		shards = 6
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && s > 0 {
		shards = s
	}
	if n := ck.n(tier); shards > n {
		shards = n
	}
	states := make([]*shardState, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		s := s
		states[s] = &shardState{hashes: map[uint64]struct{}{}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			runShard(ck, states[s], s, shards, filepath.Join(out, "shard"+strconv.Itoa(s)))
		}()
	}
	wg.Wait()

	// merge
	hashes := map[uint64]struct{}{}
	counters := map[string]int64{}
	var evals int64
	var samples []string
	var viols []Violation
	cases, races, crashes := 0, 0, 0
	var notes []string
	for _, st := range states {
		for h := range st.hashes {
			hashes[h] = struct{}{}
		}
		for k, v := range st.res.Counters {
			if strings.HasPrefix(k, "max:") {
				if counters[k] < v {
					counters[k] = v
				}
			} else {
				counters[k] += v
			}
		}
		evals += st.res.Evals
		cases += st.res.Cases
		races += st.races
		crashes += st.crashes
		if len(samples) < 6 {
			samples = append(samples, st.res.Samples...)
		}
		viols = append(viols, st.viols...)
		if st.note != "" {
			notes = append(notes, st.note)
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	known := loadKnown(root, ck.ID)
	var fresh []Violation
	knownHit := map[string]bool{}
	for _, v := range viols {
		if what, ok := known[v.Key]; ok {
			if !knownHit[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, what)
			}
			knownHit[v.Key] = true
			continue
		}
		fresh = append(fresh, v)
	}
	if ck.Arch != "" {
		for k, n := range counters {
			if strings.HasPrefix(k, "executed on ") && k != "executed on "+ck.Arch && n > 0 {
				notes = append(notes, "it was "+k)
			}
		}
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(hashes),
		"rule":                ck.Rule,
		"samples":             samples,
		"cases":               cases,
		"worker_processes":    shards,
		"observed":            counters,
	}
	if ck.Race {
		cov["race_detector_reports"] = races
	}
	ev := map[string]interface{}{
		"property":    ck.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       ck.Level,
		"coverage":    cov,
		"assumptions": ck.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	if ck.Assumptions == nil {
		delete(ev, "assumptions")
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: cases=%d evaluations=%d distinct=%d crashes=%d wall=%.1fs\n",
		ck.ID, tier, seed, cases, evals, len(hashes), crashes, time.Since(t0).Seconds())
	for _, k := range sortedKeys(counters) {
		fmt.Printf("  %s = %d\n", k, counters[k])
	}
	if len(fresh) > 0 {
		for i, v := range fresh {
			if i >= 5 {
				break
			}
			rp := filepath.Join(out, fmt.Sprintf("violation%d.json", i))
			b, _ := json.MarshalIndent(replay{ck.ID, seed, tier, v.Case, v.Key, v.Msg,
				"cd /verif && ./check.sh replay " + ck.ID + " " + rp}, "", " ")
			os.WriteFile(rp, b, 0o644)
			m := v.Msg
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("violation case=%d key=%s: %s\n", v.Case, printable(v.Key), printable(m))
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
		}
		return 1
	}
	if len(notes) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(notes, "; "))
		return 3
	}
	for k, min := range ck.MinCounters {
		if os.Getenv("VERIF_PERCENT") != "" {
			break
		}
		if counters[k] < int64(min) {
			fmt.Printf("INCONCLUSIVE: observed too little: %s = %d < %d\n", k, counters[k], min)
			return 3
		}
	}
	if evals == 0 || len(hashes) == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		return 3
	}
	return 0
}

// printable escapes what may come from binary input.
func printable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\n' || r == '\t' || (r >= ' ' && r < 127) {
			b.WriteRune(r)
			continue
		}
		b.WriteString(strings.Trim(strconv.QuoteRuneToASCII(r), "'"))
	}
	return b.String()
}

func loadKnown(root, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// known: property=<id> key=<key> <what fails>
		s := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(s, "known: property="+id+" key=") {
			continue
		}
		s = strings.TrimPrefix(s, "known: property="+id+" key=")
		if i := strings.IndexByte(s, ' '); i > 0 {
			m[s[:i]] = s[i+1:]
		}
	}
	return m
}

// hangConfirmed is true if a hang is a violation already.
var hangConfirmed atomic.Bool

func runShard(ck *Check, st *shardState, shard, shards int, dir string) {
	hang := ck.HangSec
	if hang == 0 {
		hang = 90
	}
	start := 0
	acc := workerResult{Counters: map[string]int64{}}
	confirming := -1
	for round := 0; ; round++ {
		d := dir + "-" + strconv.Itoa(round)
		os.MkdirAll(d, 0o755)
		res, stderr, status, cur := spawn(ck, shard, shards, start, d, hang)
		// collect
		acc.Evals += res.Evals
		acc.Cases += res.Cases
		for k, v := range res.Counters {
			if strings.HasPrefix(k, "max:") {
				if acc.Counters[k] < v {
					acc.Counters[k] = v
				}
			} else {
				acc.Counters[k] += v
			}
		}
		acc.Samples = append(acc.Samples, res.Samples...)
		st.viols = append(st.viols, res.Violations...)
		if b, err := os.ReadFile(filepath.Join(d, "hashes")); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				st.hashes[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
		if ck.Race {
			n, first := raceReports(d)
			if n > 0 {
				st.races += n
				c := cur - 1
				st.viols = append(st.viols, Violation{c, "datarace", fmt.Sprintf("%d data race report(s) in shard %d\n%s", n, shard, first)})
			}
		}
		if status == "ok" {
			break
		}
		if cur == 0 {
			// not in a case
			st.note = fmt.Sprintf("worker failed outside of cases: %s\n%s", status, tail(stderr, 3000))
			break
		}
		idx := cur - 1
		switch status {
		case "hang":
			if confirming == idx {
				st.viols = append(st.viols, Violation{idx, "hang", fmt.Sprintf("the case did not return within %d s twice\n%s", hang, head(stderr, 6000))})
				st.crashes++
				acc.Cases++
				hangConfirmed.Store(true)
			}
			if hangConfirmed.Load() {
				// One is enough, each of them takes minutes.
				st.res = acc
				return
			}
			confirming = idx
			start = idx
			continue
		default:
			st.crashes++
			if strings.Contains(status, "killed") && !strings.Contains(stderr, "fatal error") && !strings.Contains(stderr, "panic") {
				// Killed from outside (memory pressure): try once more.
				if confirming != idx {
					confirming = idx
					start = idx
					continue
				}
			}
			key := "crash"
			if strings.Contains(stderr, "all goroutines are asleep") {
				key = "deadlock"
			}
			st.viols = append(st.viols, Violation{idx, key, fmt.Sprintf("the process died: %s\n%s", status, head(stderr, 6000))})
			start = idx + 1
			confirming = -1
		}
		if st.crashes >= 3 {
			break
		}
	}
	st.res = acc
}

func raceReports(dir string) (int, string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	n := 0
	first := ""
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		c := bytes.Count(b, []byte("WARNING: DATA RACE"))
		if c > 0 && first == "" {
			first = head(string(b), 5000)
		}
		n += c
	}
	return n, first
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func spawn(ck *Check, shard, shards, start int, dir string, hang int) (res workerResult, stderr string, status string, cur int) {
	exe, err := os.Executable()
	if err != nil {
		return res, err.Error(), "noexec", 0
	}
	if ck.Race {
		exe += ".race"
	}
	argv := []string{exe, "worker", ck.ID, strconv.Itoa(shard), strconv.Itoa(shards), strconv.Itoa(start), dir}
	switch ck.Arch {
	case "":
	case "wasm":
		argv[0] += ".wasm"
		argv = append([]string{"node", "--stack-size=8192", os.Getenv("VERIF_WASM_EXEC")}, argv...)
	default:
		argv[0] += "." + ck.Arch
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	errFile, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return res, err.Error(), "nofile", 0
	}
	defer errFile.Close()
	cmd.Stderr = errFile
	cmd.Stdout = io.Discard
	env := os.Environ()
	env = append(env, "GOTRACEBACK=all")
	if ck.Race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	}
	if ck.MemMB > 0 {
		env = append(env, fmt.Sprintf("GOMEMLIMIT=%dMiB", ck.MemMB))
	}
	cmd.Env = env
	cmd.SysProcAttr = procAttr()
	// Pdeathsig is bound to the thread.
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return res, err.Error(), "nostart", 0
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	readCur := func() int {
		b, err := os.ReadFile(filepath.Join(dir, "cur"))
		if err != nil || len(b) < 8 {
			return 0
		}
		return int(binary.LittleEndian.Uint64(b))
	}
	lastCur, lastChange := -1, time.Now()
	var werr error
	hung := false
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			if c := readCur(); c != lastCur {
				lastCur, lastChange = c, time.Now()
			} else if time.Since(lastChange) > time.Duration(hang)*time.Second && !hung {
				hung = true
				cmd.Process.Signal(syscall.SIGQUIT)
				go func() {
					time.Sleep(5 * time.Second)
					cmd.Process.Kill()
				}()
			}
		}
	}
	cur = readCur()
	if b, err := os.ReadFile(filepath.Join(dir, "stderr")); err == nil {
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
		stderr = string(b)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil {
		json.Unmarshal(b, &res)
	}
	switch {
	case hung:
		status = "hang"
	case werr == nil && res.Done:
		status = "ok"
	case werr == nil:
		status = "exit 0 before the end"
	default:
		status = werr.Error()
	}
	return
}
