package main

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C28: every sequence of selections and messages, each in a process of its own.
// The temporary directory is vf/tmp below the working directory.

const logOld = "earlier message of an earlier process\n"

var logDir = "vf/tmp"

func logOps(quick bool) string {
	if quick {
		return "SFmLgp"
	}
	return "SFmLgpnt"
}

// logRun carries out one sequence and compares all destinations after every step.
// initial: "none", "old" (the file exists with content), "blocked" (a directory is in the way of the file)
func logRun(initial, seq, stdout, stderr string) error {
	path := filepath.Join(logDir, strconv.Itoa(os.Getpid())+".log")
	other := filepath.Join(logDir, strconv.Itoa(os.Getppid())+".log")
	os.RemoveAll(path)
	switch initial {
	case "old":
		os.WriteFile(path, []byte(logOld), 0644)
	case "blocked":
		os.Mkdir(path, 0755)
	}
	ob, _ := os.ReadFile(other)
	defer os.RemoveAll(path)
	read := func() (r [3][]byte) {
		r[0], _ = os.ReadFile(stderr)
		r[1], _ = os.ReadFile(stdout)
		r[2], _ = os.ReadFile(path)
		return
	}
	dest := 0 // 0: as the log package starts, 1: standard output, 2: file
	names := []string{"standard error", "standard output", "the file"}
	prev := read()
	blocked := initial == "blocked"
	for i := 0; i < len(seq); i++ {
		var msgs []string
		var plain string
		if seq[i] == 'U' && blocked {
			os.Remove(path)
			blocked = false
			prev = read()
			continue
		}
		switch seq[i] {
		case 'S':
			if err := util.LCSetLoggerStdout(); err != nil {
				return bad("select", "step %d: selecting standard output: %v", i, err)
			}
			dest = 1
		case 'F':
			err := util.LCSetLoggerFileTmp()
			if err == nil && blocked {
				return bad("select", "step %d: the file cannot be opened, no error", i)
			} else if err != nil && !blocked {
				return bad("select", "step %d: selecting the file: %v", i, err)
			} else if err == nil {
				dest = 2
			}
		case 'm':
			msgs = []string{fmt.Sprintf("message %d", i)}
			log.Print(msgs[0])
		case 'n':
			msgs = []string{fmt.Sprintf("line\nline %d", i)}
			log.Printf("line\nline %d", i)
		case 't':
			msgs = []string{fmt.Sprintf("%%s %d\n", i)}
			log.Println("%s", i)
			msgs[0] = fmt.Sprintf("%%s %d", i)
		case 'L':
			msgs = []string{strings.Repeat("long message "+strconv.Itoa(i)+" ", 8000)}
			log.Println(msgs[0])
		case 'g':
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				for k := 0; k < 2; k++ {
					msgs = append(msgs, fmt.Sprintf("step %d goroutine %d message %d %s", i, g, k, strings.Repeat("x", 100)))
				}
				g := g
				mm := msgs
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 2; k++ {
						log.Print(mm[g*2+k])
					}
				}()
			}
			wg.Wait()
		case 'p':
			plain = fmt.Sprintf("printed %d\n", i)
			fmt.Print(plain)
		}
		now := read()
		for d := range now {
			if !bytes.HasPrefix(now[d], prev[d]) {
				return bad("lost", "step %d: %s held %d bytes, now holds %d and does not begin with them", i, names[d], len(prev[d]), len(now[d]))
			}
			got := string(now[d][len(prev[d]):])
			if d == 1 && plain != "" {
				if got != plain {
					return bad("output", "step %d: printed %q, standard output got %q", i, plain, trunc(got, 200))
				}
				continue
			}
			want := 0
			if d == dest {
				want = len(msgs)
			}
			if want == 0 {
				if got != "" {
					return bad("destination", "step %d (%c): %s got %q while %s is selected", i, seq[i], names[d], trunc(got, 200), names[dest])
				}
				continue
			}
			if strings.Count(got, "\n") != want+strings.Count(strings.Join(msgs, ""), "\n") {
				return bad("incomplete", "step %d: %d messages, %s got %q", i, want, names[d], trunc(got, 300))
			}
			if want == 1 && !strings.HasSuffix(got, msgs[0]+"\n") {
				return bad("incomplete", "step %d: message %q, %s got %q", i, trunc(msgs[0], 100), names[d], trunc(got, 200))
			}
			for _, m := range msgs {
				if strings.Count(got, m+"\n") != 1 {
					return bad("incomplete", "step %d: message %q is not there once in %q", i, trunc(m, 100), trunc(got, 300))
				}
			}
		}
		prev = now
	}
	if b, _ := os.ReadFile(other); !bytes.Equal(b, ob) {
		return bad("destination", "the file of another process changed")
	}
	if filepath.IsAbs(logDir) {
		return nil
	}
	ds, _ := os.ReadDir(logDir)
	for _, d := range ds {
		if d.Name() != filepath.Base(path) && d.Name() != filepath.Base(other) {
			return bad("destination", "another file appeared: %s", d.Name())
		}
	}
	return nil
}

func init() {
	register("C28", checkInfo{level: "model_checking",
		rule:  "every sequence, up to a length, of selecting standard output, selecting the file, logging a short, a long (over 64 KB), several concurrent messages and (thorough) messages with line ends and format characters, and printing to standard output, from each of: no file yet, a file with earlier messages, a directory in the way of the file that is removed at an enumerated step; one process per sequence, all destinations compared after every step with a model (one variable: the destination); a state is a prefix of a sequence",
		assum: []string{"messages are logged through the default logger of the log package", "the temporary directory is replaced by a scratch directory when the harness is built", "until the first selection the log package's default applies"}},
		runLog)
	helpers["logprobe"] = func(a []string) { // tells which directory the log file is in
		name := strconv.Itoa(os.Getpid()) + ".log"
		var fresh []string
		for _, d := range a {
			if _, err := os.Lstat(filepath.Join(d, name)); err != nil {
				fresh = append(fresh, d)
			}
		}
		util.LCSetLoggerFileTmp()
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			f, _ := os.Readlink("/proc/self/fd/" + fd.Name())
			for _, d := range a {
				if abs, _ := filepath.Abs(filepath.Join(d, name)); f == abs {
					fmt.Print(d)
					return
				}
			}
		}
		for _, d := range fresh {
			if _, err := os.Lstat(filepath.Join(d, name)); err == nil {
				fmt.Print(d)
				return
			}
		}
	}
	helpers["logop"] = func(a []string) {
		logDir = a[5]
		if err := logRun(a[0], a[1], a[2], a[3]); err != nil {
			sig := "fail"
			if ce, ok := err.(*caseError); ok {
				sig = ce.sig
			}
			os.WriteFile(a[4], []byte(sig+"\n"+err.Error()), 0644)
			os.Exit(1)
		}
	}
}

func runLog(w *W) {
	kfScratch()
	w.limit.Store(60)
	os.MkdirAll(logDir, 0755)
	os.Setenv("TMPDIR", func() string { d, _ := filepath.Abs(logDir); return d }())
	os.WriteFile(filepath.Join(logDir, strconv.Itoa(os.Getpid())+".log"), []byte("message of another process\n"), 0644)
	self, _ := os.Readlink("/proc/self/exe")
	// the directory, when the sources do not name it in one literal
	probe := exec.Command(self, "logprobe", "/tmp", "vf/tmp")
	if d, _ := probe.Output(); len(d) > 0 {
		logDir = string(d)
		os.RemoveAll(filepath.Join(logDir, strconv.Itoa(probe.ProcessState.Pid())+".log"))
	}
	one := func(initial, seq string) error {
		out, _ := os.Create("stdout")
		errf, _ := os.Create("stderr")
		os.Remove("verdict")
		cmd := exec.Command(self, "logop", initial, seq, "stdout", "stderr", "verdict", logDir)
		cmd.Stdout, cmd.Stderr = out, errf
		err := cmd.Run()
		out.Close()
		errf.Close()
		w.traces++
		w.transitions += int64(len(seq))
		os.RemoveAll(filepath.Join(logDir, strconv.Itoa(cmd.ProcessState.Pid())+".log"))
		if b, e := os.ReadFile("verdict"); e == nil {
			p := strings.SplitN(string(b), "\n", 2)
			return bad(p[0], "%s", p[1])
		}
		if err != nil {
			b, _ := os.ReadFile("stderr")
			return bad("crash", "%v: %s", err, trunc(string(b), 500))
		}
		return nil
	}
	ops := logOps(w.Quick())
	depth := 5
	if !w.Quick() {
		depth = 6
	}
	var rec func(initial, seq string)
	rec = func(initial, seq string) {
		if w.stop {
			return
		}
		if len(seq) == depth {
			w.Case("log", func() string { return initial + " " + seq }, func() error {
				w.states += int64(depth)
				w.Outcome(initial, seq)
				return one(initial, seq)
			})
			return
		}
		for i := 0; i < len(ops); i++ {
			rec(initial, seq+ops[i:i+1])
		}
		if initial == "blocked" && !strings.Contains(seq, "U") {
			rec(initial, seq+"U")
		}
	}
	for _, initial := range []string{"none", "old", "blocked"} {
		rec(initial, "")
	}
	// longer ones of the operations that matter most
	ops = "SFm"
	depth = 7
	if !w.Quick() {
		depth = 9
	}
	for _, initial := range []string{"none", "old", "blocked"} {
		rec(initial, "")
	}
}
