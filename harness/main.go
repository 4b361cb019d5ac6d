package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// every check registers itself here
var checks = map[string]func(*W){}

type checkInfo struct {
	level string // model_checking | exploration | fault_enumeration
	rule  string
	assum []string
	procs int // number of worker processes (0: number of CPUs)
}

var infos = map[string]checkInfo{}

func register(id string, info checkInfo, f func(*W)) {
	checks[id] = f
	infos[id] = info
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vf check ID [tier] | vf worker ... | vf replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		shard := fs.Int("shard", 0, "")
		n := fs.Int("n", 1, "")
		only := fs.String("only", "", "")
		onlyFile := fs.String("onlyfile", "", "")
		out := fs.String("out", "", "")
		trace := fs.String("trace", "", "")
		budget := fs.Int("budget", 600, "")
		fs.Parse(os.Args[2:])
		if *onlyFile != "" {
			b, err := os.ReadFile(*onlyFile)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			*only = string(b)
		}
		workerMain(*prop, *tier, *shard, *n, *only, *out, *trace, *budget)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	default:
		if f, ok := helpers[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// helper sub commands (processes that a check kills or injects faults into)
var helpers = map[string]func([]string){}

func verifDir() string {
	d := os.Getenv("VF_HOME")
	if d == "" {
		d = "/verif"
	}
	return d
}

type runner struct {
	prop, tier string
	tmp        string
	budget     int
	n          int
	seq        int
	known      string // signatures of known findings
	alone      bool   // do not stop early when another worker has found something
	mu         sync.Mutex
}

// worker runs one worker process, returns nil if it died without a result.
func (r *runner) worker(shard, n int, only string, timeout time.Duration, traced bool) (res *Result, died string, trace string) {
	r.mu.Lock()
	r.seq++
	id := r.seq
	r.mu.Unlock()
	out := filepath.Join(r.tmp, fmt.Sprintf("out%d.json", id))
	args := []string{"worker", "-prop", r.prop, "-tier", r.tier, "-shard", strconv.Itoa(shard), "-n", strconv.Itoa(n),
		"-out", out, "-budget", strconv.Itoa(r.budget)}
	if only != "" {
		of := filepath.Join(r.tmp, fmt.Sprintf("only%d", id))
		os.WriteFile(of, []byte(only), 0644)
		args = append(args, "-onlyfile", of)
	}
	tf := ""
	if traced {
		tf = filepath.Join(r.tmp, fmt.Sprintf("trace%d", id))
		args = append(args, "-trace", tf)
	}
	scratch := filepath.Join(r.tmp, fmt.Sprintf("scratch%d", id))
	os.MkdirAll(scratch, 0755)
	errFile, _ := os.Create(filepath.Join(r.tmp, fmt.Sprintf("err%d", id)))
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Stderr = errFile
	cmd.Stdout = errFile
	cmd.Env = append(os.Environ(), "VF_SCRATCH="+scratch, "GOMAXPROCS=2", "GOTRACEBACK=single", "VF_KNOWN="+r.known)
	if only == "" && !r.alone {
		cmd.Env = append(cmd.Env, "VF_FOUND="+filepath.Join(r.tmp, "found"))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		return nil, "cannot start: " + err.Error(), ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(timeout):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		err = fmt.Errorf("timeout")
	}
	errFile.Close()
	if b, e := os.ReadFile(out); e == nil {
		res = &Result{}
		if json.Unmarshal(b, res) != nil {
			res = nil
		}
	}
	if res == nil {
		eb, _ := os.ReadFile(errFile.Name())
		died = fmt.Sprintf("%v: %s", err, trunc(string(eb), 1500))
	}
	if tf != "" {
		if b, e := os.ReadFile(tf); e == nil && len(b) > 8 {
			n := int(b[0]) | int(b[1])<<8
			if n > 0 && n+8 <= len(b) {
				trace = string(b[8 : 8+n])
			}
		}
	}
	return
}

type known struct{ prop, sig, text string }

func loadKnown() []known {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "known: ")
		for i, f := range strings.SplitN(rest, " ", 3) {
			switch {
			case i == 0:
				k.prop = strings.TrimPrefix(f, "property=")
			case i == 1:
				k.sig = strings.TrimPrefix(f, "sig=")
			default:
				k.text = f
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func checkMain(prop, tier string) int {
	info, ok := infos[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	start := time.Now()
	budget := 500
	hard := 800 * time.Second
	if tier == "thorough" {
		budget = 3000
		hard = 4000 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VF_BUDGET")); err == nil && s > 0 {
		budget = s
	}
	tmp, err := os.MkdirTemp("", "vf-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := info.procs
	if n == 0 {
		n = runtime.NumCPU()
	}
	r := &runner{prop: prop, tier: tier, tmp: tmp, budget: budget, n: n}
	ks := loadKnown()
	for _, k := range ks {
		if k.prop == prop {
			r.known += k.sig + " "
		}
	}
	// left is the time a worker started now may take for all to end in time
	left := func() time.Duration {
		d := hard + 70*time.Second - time.Since(start)
		if d > hard {
			d = hard
		}
		if d < 20*time.Second {
			d = 20 * time.Second
		}
		return d
	}
	results := make([]*Result, n)
	died := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i], died[i], _ = r.worker(i, n, "", hard, false)
		}(i)
	}
	wg.Wait()

	var viols []Viol
	exhaustive := true
	tot := Result{Notes: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	confirmed := map[int]bool{} // index in viols: confirmed already
	crashed, lost := false, false
	for i := 0; i < n; i++ {
		if results[i] == nil {
			exhaustive = false
			if crashed {
				continue // one such case is enough
			}
			// find the case that killed the worker
			r.alone = true
			res, d, tr := r.worker(i, n, "", left(), true)
			r.alone = false
			if res == nil && tr != "" {
				p := strings.SplitN(tr, "|", 2)
				confirmed[len(viols)] = true
				crashed = true
				viols = append(viols, Viol{Suite: p[0], Case: p[1], Sig: "crash", Msg: "the process dies: " + d, Shard: i})
				continue
			}
			if res == nil {
				fmt.Fprintf(os.Stderr, "worker %d died outside of a case: %s / %s\n", i, died[i], d)
				lost = true
				continue
			}
			fmt.Fprintf(os.Stderr, "worker %d died once and not again: %s\n", i, died[i])
			results[i] = res
		}
		x := results[i]
		tot.Evals += x.Evals
		tot.States += x.States
		tot.Transitions += x.Transitions
		tot.Traces += x.Traces
		for _, h := range x.Distinct {
			distinct[h] = struct{}{}
		}
		for _, h := range x.StateSet {
			states[h] = struct{}{}
		}
		if len(x.Samples) > 0 && len(tot.Samples) < 8 {
			tot.Samples = append(tot.Samples, x.Samples[0])
			if len(x.Samples) > 1 && len(tot.Samples) < 8 {
				tot.Samples = append(tot.Samples, x.Samples[len(x.Samples)-1])
			}
		}
		for k, v := range x.Notes {
			tot.Notes[k] += v
		}
		if !x.Exhaustive {
			exhaustive = false
		}
		viols = append(viols, x.Viols...)
	}

	// classify
	type item struct {
		v    Viol
		conf bool
	}
	groups := map[string][]item{}
	var order []string
	for i, v := range viols {
		g := v.Suite + "/" + v.Sig
		if _, ok := groups[g]; !ok {
			order = append(order, g)
		}
		groups[g] = append(groups[g], item{v, confirmed[i]})
	}
	sort.Strings(order)
	repDir := filepath.Join(verifDir(), "replays")
	reported := 0
	unrepro := 0
	knownSeen := map[string]bool{}
	for _, g := range order {
		its := groups[g]
		var kn *known
		for i := range ks {
			if ks[i].prop == prop && ks[i].sig == its[0].v.Sig {
				kn = &ks[i]
			}
		}
		if kn != nil {
			if !knownSeen[kn.sig] {
				knownSeen[kn.sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kn.text)
			}
			continue
		}
		if reported >= 6 {
			continue
		}
		// shortest case first
		sort.SliceStable(its, func(a, b int) bool { return len(its[a].v.Case) < len(its[b].v.Case) })
		it := its[0]
		v := it.v
		conf, mode := 5, "case"
		if !it.conf {
			conf = 0
			for k := 0; k < 5; k++ {
				if k > 0 && v.Sig == "hang" && conf == k && k >= 2 {
					conf = 5
					break
				}
				res, d, _ := r.worker(0, 1, v.Suite+"|"+v.Case, 120*time.Second, false)
				if res == nil && d != "" {
					conf++
				} else if res != nil && len(res.Viols) > 0 {
					conf++
				}
			}
			if conf == 0 {
				// needs the history of the cases before it: repeat the whole shard
				r.alone = true
				res, _, _ := r.worker(v.Shard, n, "", left(), false)
				r.alone = false
				if res != nil {
					for _, y := range res.Viols {
						if y.Suite == v.Suite && y.Sig == v.Sig {
							conf, mode = 5, "shard"
							break
						}
					}
				}
			}
		}
		if conf == 0 {
			unrepro++
			fmt.Fprintf(os.Stderr, "not reproduced, not reported: %s %s %s\n", v.Suite, v.Case, v.Msg)
			continue
		}
		reported++
		os.MkdirAll(repDir, 0755)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%s-%d.json", prop, sanitize(v.Suite), sanitize(v.Sig), reported))
		writeJSON(path, map[string]interface{}{"property": prop, "tier": tier, "suite": v.Suite, "case": v.Case, "sig": v.Sig,
			"message": v.Msg, "confirmations": conf, "mode": mode, "shard": v.Shard, "shards": n,
			"replay_cmd": "./check.sh replay " + path})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  suite %s, case %s\n  %s\n", v.Suite, trunc(v.Case, 600), strings.ReplaceAll(trunc(v.Msg, 1200), "\n", "\n  "))
	}

	cov := map[string]interface{}{"samples": tot.Samples, "exhaustive": exhaustive && unrepro == 0}
	if len(tot.Samples) == 0 {
		cov["samples"] = []string{}
	}
	switch info.level {
	case "model_checking":
		st := int64(len(states)) + tot.States
		cov["states"] = st
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Traces
		if len(distinct) > 0 {
			cov["distinct_outcomes"] = len(distinct)
		}
		cov["cases"] = tot.Evals
		cov["rule"] = info.rule
	default:
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = len(distinct)
		cov["rule"] = info.rule
	}
	for _, k := range sortedKeys(tot.Notes) {
		cov[k] = tot.Notes[k]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": info.level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": reported}
	if len(info.assum) > 0 {
		ev["assumptions"] = info.assum
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1f s, violations=%d\n", prop, tier,
		tot.Evals, len(states)+int(tot.States), tot.Transitions, len(distinct), exhaustive, time.Since(start).Seconds(), reported)
	if reported > 0 {
		return 1
	}
	if lost {
		return 2
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Property, Tier, Suite, Case, Mode string
		Shard, Shards                     int
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "vf-replay-")
	defer os.RemoveAll(tmp)
	r := &runner{prop: m.Property, tier: m.Tier, tmp: tmp, budget: 800}
	var res *Result
	var died string
	if m.Mode == "shard" {
		res, died, _ = r.worker(m.Shard, m.Shards, "", 900*time.Second, false)
	} else {
		res, died, _ = r.worker(0, 1, m.Suite+"|"+m.Case, 300*time.Second, false)
	}
	if res == nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n  the process dies: %s\n", m.Property, path, died)
		return 1
	}
	for _, v := range res.Viols {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", m.Property, path, v.Msg)
		return 1
	}
	fmt.Printf("%d case(s) run, no violation\n", res.Evals)
	return 0
}
