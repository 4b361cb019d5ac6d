package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C24: the key generation command, run as a process in a scratch directory
// (check.sh builds it so that its key directory lies below the working
// directory), and the library's prompting calls.

var kgClasses = map[string]int{"node": util.CLS_NODE, "cluster": util.CLS_CLUSTER, "universe": util.CLS_UNIVERSE,
	"service": util.CLS_SERVICE, "federation": util.CLS_FEDERATION}

type kgRun struct {
	class, alias string // class: the text of the flag
	force        bool
	rand         *big.Int // what the random source gives for the private number, nil: nothing particular
	lines        []string // input lines, then the input ends; a line ending in kgEOF has an end of input (as control-D gives on a terminal) in place of its line end
}

const kgEOF = "\x04"

// kgTyped is what the pass phrase reader makes of a line: editing keys, interruption, end of input, length limit
func kgTyped(l string) (string, bool) {
	if strings.HasSuffix(l, kgEOF) {
		return "", false
	}
	var p []byte
	for i := 0; i < len(l); i++ {
		if i == 512 {
			return "", false
		}
		switch c := l[i]; c {
		case 127, 8:
			if len(p) > 0 {
				p = p[:len(p)-1]
			}
		case 3:
			return "", false
		case 0:
		default:
			p = append(p, c)
		}
	}
	return string(p), true
}

func (r kgRun) String() string {
	s := ""
	if r.rand != nil {
		s = fmt.Sprintf(" private number %x", r.rand)
	}
	return fmt.Sprintf("-class=%q -alias=%q -force=%v input %q%s", r.class, r.alias, r.force, r.lines, s)
}

type kgResult struct {
	exit   int // -1: killed
	out    string
	strace string
	hang   bool
}

// kgFeed runs a command and writes one input line at a time, each when the one before is consumed.
func kgFeed(cmd *exec.Cmd, lines []string) (res kgResult) {
	r, wr, err := os.Pipe()
	if err != nil {
		res.exit = -2
		return
	}
	var out bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = r, &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		r.Close()
		wr.Close()
		res.exit = -2
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	r.Close()
	fd := int(wr.Fd())
	left := func() int {
		var n int32
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541b, uintptr(unsafe.Pointer(&n)))
		return int(n)
	}
	limit := time.Now().Add(12 * time.Second)
	ended := false
	var werr error
	for i := 0; !ended; {
		select {
		case werr = <-done:
			ended = true
			continue
		default:
		}
		if time.Now().After(limit) {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
			ended, res.hang = true, true
			continue
		}
		if i <= len(lines) && left() == 0 {
			if i < len(lines) {
				wr.Write([]byte(lines[i] + "\n"))
			} else {
				wr.Close()
			}
			i++
			continue
		}
		if i > len(lines) {
			select {
			case werr = <-done:
				ended = true
			case <-time.After(time.Until(limit)):
			}
			continue
		}
		time.Sleep(100 * time.Microsecond)
	}
	wr.Close()
	res.out = out.String()
	if werr != nil {
		res.exit = -1
		if e, ok := werr.(*exec.ExitError); ok && e.Exited() {
			res.exit = e.ExitCode()
		}
	}
	return
}

// kgFeedMessages does the same through a socket that keeps message limits, where an empty message is
// an end of input after which more may come.
func kgFeedMessages(cmd *exec.Cmd, lines []string) (res kgResult) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		res.exit = -2
		return
	}
	in := os.NewFile(uintptr(fds[0]), "input")
	var out bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = in, &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	err = cmd.Start()
	in.Close()
	if err != nil {
		syscall.Close(fds[1])
		res.exit = -2
		return
	}
	go func() {
		defer syscall.Close(fds[1])
		for _, l := range lines {
			for i := 0; i < len(l); i++ {
				m := []byte{l[i]}
				if i == len(l)-1 && l[i:] == kgEOF {
					m = nil
				}
				if syscall.Sendto(fds[1], m, syscall.MSG_NOSIGNAL, nil) != nil {
					return
				}
			}
			if !strings.HasSuffix(l, kgEOF) && syscall.Sendto(fds[1], []byte{'\n'}, syscall.MSG_NOSIGNAL, nil) != nil {
				return
			}
		}
		for syscall.Sendto(fds[1], nil, syscall.MSG_NOSIGNAL, nil) == nil {
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(12 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		werr = <-done
		res.hang = true
	}
	res.out = out.String()
	if werr != nil {
		res.exit = -1
		if e, ok := werr.(*exec.ExitError); ok && e.Exited() {
			res.exit = e.ExitCode()
		}
	}
	return
}

func kgExec(r kgRun, strace []string) kgResult {
	bin := filepath.Join(verifDir(), ".cache/bin/pkeygen")
	var a []string
	if r.class != "-" {
		a = append(a, "-class="+r.class)
	}
	if r.alias != "" {
		a = append(a, "-alias", r.alias)
	}
	if r.force {
		a = append(a, "-force")
	}
	name := bin
	tf := "strace.out"
	if strace != nil {
		a = append(append([]string{"-f", "-o", tf}, strace...), append([]string{bin}, a...)...)
		name = "strace"
	}
	cmd := exec.Command(name, a...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	if r.rand != nil {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VF_RAND=%x", be32(r.rand)), "GODEBUG=cryptocustomrand=1")
	}
	feed := kgFeed
	for _, l := range r.lines {
		if strings.HasSuffix(l, kgEOF) {
			feed = kgFeedMessages
		}
	}
	res := feed(cmd, r.lines)
	if strace != nil {
		b, _ := os.ReadFile(tf)
		os.Remove(tf)
		res.strace = string(b)
	}
	return res
}

// the directory that holds the directories of all classes
func kgRoot() string { return filepath.Dir(util.LCGetEtcDir(util.CLS_NODE)) }

func kgReset() {
	// only ever below the scratch directory, or what this process made
	if !filepath.IsAbs(kgRoot()) || kgOwnRoot {
		for _, c := range kgClasses {
			os.RemoveAll(util.LCGetEtcDir(c))
		}
	}
}

var kgOwnRoot bool

type kgTree map[string]string

// kgSnap describes every entry of the key directories.
func kgSnap() kgTree {
	t := kgTree{}
	filepath.Walk(kgRoot(), func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case st.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[p] = "link " + l
		case st.IsDir():
			t[p] = "dir"
		default:
			b, _ := os.ReadFile(p)
			t[p] = "file " + string(b)
		}
		return nil
	})
	return t
}

// diff lists what differs: entries that changed or are gone, and those that are new.
func (a kgTree) diff(b kgTree) (changed, added []string) {
	for p, x := range a {
		if y, ok := b[p]; !ok || x != y {
			changed = append(changed, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			added = append(added, p)
		}
	}
	sort.Strings(changed)
	sort.Strings(added)
	return
}

// kgNew gives the paths of key directories that are new, and the other new entries that are not
// the plain directories above them.
func kgNew(added []string, after kgTree) (keys, other []string) {
	class := map[string]bool{kgRoot(): true}
	for _, c := range kgClasses {
		class[util.LCGetEtcDir(c)] = true
	}
	for _, p := range added {
		switch {
		case class[p] && after[p] == "dir":
		case after[p] == "dir" && class[filepath.Dir(p)]:
			keys = append(keys, p)
		case class[filepath.Dir(filepath.Dir(p))] && after[filepath.Dir(p)] == "dir":
		default:
			other = append(other, p)
		}
	}
	return
}

// kgSecret is how a pass phrase becomes the secret of the key files.
func kgSecret(pass string) []byte {
	s := make([]byte, 16)
	copy(s, pass)
	return s
}

type kgKey struct {
	cls  int
	id   string
	pass string
	d    *big.Int
}

// kgUsable checks that a key generated with a pass phrase loads, under its id or an alias.
func kgUsable(w *W, cls int, id, pass string) (*ecdsa.PrivateKey, error) {
	pub, err := util.LCLoadPubKey(cls, id)
	if err != nil {
		return nil, bad("load", "the public key of %s cannot be loaded: %v", id, err)
	}
	k, err := util.LCLoadPrivKey(cls, id, kgSecret(pass))
	if err != nil {
		return nil, bad("load", "the private key of %s cannot be loaded with the pass phrase %q: %v", id, pass, err)
	}
	if !samePublic(pub, &k.PublicKey) {
		return nil, bad("pair", "the private key of %s belongs to another public key", id)
	}
	x, _, err := refPublic(k.D)
	if err != nil || x.Cmp(pub.X) != 0 {
		return nil, bad("pair", "the private number of %s does not give its public key", id)
	}
	for i, wrong := range []string{"", "another!", pass + "x", strings.ToUpper(pass), "x" + pass, pass[:len(pass)-1]} {
		if bytes.Equal(kgSecret(wrong), kgSecret(pass)) {
			continue
		}
		if _, err := util.LCLoadPrivKey(cls, id, kgSecret(wrong)); err == nil {
			return nil, bad("wrong-pass", "the private key of %s loads with another pass phrase (%d)", id, i)
		}
	}
	w.transitions += 2
	return k, nil
}

func (k kgKey) check(w *W) error {
	x, err := kgUsable(w, k.cls, k.id, k.pass)
	if err == nil && x.D.Cmp(k.d) != 0 {
		err = bad("other-key", "key %s is another one than before", k.id)
	}
	return err
}

// kgModel says what a run must do: whether it asks about the alias, and whether a key is made.
// aliasThere: an entry of that name exists.
func kgModel(r kgRun, aliasThere bool) (refused, made bool, pass string) {
	if _, ok := kgClasses[r.class]; !ok {
		return true, false, ""
	}
	in := r.lines
	next := func() (string, bool) {
		if len(in) == 0 {
			return "", false
		}
		l := in[0]
		in = in[1:]
		return l, true
	}
	if r.alias != "" && aliasThere && !r.force {
		l, _ := next()
		l = strings.TrimSpace(strings.TrimSuffix(l, kgEOF))
		if l != "y" && l != "Y" {
			return true, false, ""
		}
	}
	a, ok := next()
	if ok {
		a, ok = kgTyped(a)
	}
	if !ok || len(a) < 8 {
		return false, false, ""
	}
	b, ok := next()
	if ok {
		b, ok = kgTyped(b)
	}
	if !ok || a != b {
		return false, false, ""
	}
	return false, true, a
}

// kgStep runs the command once in the present state and checks what it did.  keys: those made before.
func kgStep(w *W, r kgRun, keys []kgKey) ([]kgKey, error) {
	before := kgSnap()
	cls, okClass := kgClasses[r.class]
	there := false
	aliasPath := ""
	if okClass && r.alias != "" {
		aliasPath = util.LCGetEtcDir(cls) + "/" + r.alias
		_, err := os.Lstat(aliasPath)
		there = err == nil
	}
	refused, made, pass := kgModel(r, there)
	blocked := false // an alias that is a directory with content, or lies in a missing one, cannot be made
	if aliasPath != "" {
		if st, err := os.Lstat(aliasPath); err == nil && st.IsDir() {
			es, _ := os.ReadDir(aliasPath)
			blocked = len(es) > 0
		}
		if d := filepath.Dir(aliasPath); d != util.LCGetEtcDir(cls) {
			if st, err := os.Stat(d); err != nil || !st.IsDir() {
				blocked = true
			}
		}
	}
	res := kgExec(r, nil)
	w.transitions++
	after := kgSnap()
	changed, added := before.diff(after)
	newKeys, other := kgNew(added, after)
	what := fmt.Sprintf("%v: exit %d, output %q", r, res.exit, trunc(res.out, 300))
	if res.hang {
		return keys, bad("hang", "%s: does not end", what)
	}
	if res.exit < 0 {
		return keys, bad("died", "%s: died", what)
	}
	// a pass phrase is not shown
	for _, l := range r.lines {
		if len(l) >= 8 && strings.Contains(res.out, l) {
			return keys, bad("shown", "%s: an input line is shown", what)
		}
	}
	switch {
	case refused:
		if len(changed)+len(added) > 0 {
			return keys, bad("refused", "%s: must not change anything, but %v changed and %v are new", what, changed, added)
		}
		if res.exit == 0 {
			return keys, bad("exit", "%s: refused, but reports success", what)
		}
	case !made:
		if len(changed)+len(newKeys)+len(other) > 0 {
			return keys, bad("no-key", "%s: must not make a key, but %v changed and %v are new", what, changed, added)
		}
		if res.exit == 0 {
			return keys, bad("exit", "%s: no key is made, but reports success", what)
		}
	default:
		// exactly one key, under its own id
		if len(newKeys) != 1 || filepath.Dir(newKeys[0]) != util.LCGetEtcDir(cls) {
			return keys, bad("one-key", "%s: new key directories are %v", what, newKeys)
		}
		id := filepath.Base(newKeys[0])
		k, err := kgUsable(w, cls, id, pass)
		if err != nil {
			return keys, bad(err.(*caseError).sig, "%s: %v", what, err)
		}
		if x, ok := new(big.Int).SetString(id, 16); !ok || x.Cmp(k.X) != 0 {
			return keys, bad("id", "%s: the id %s is not the public key %x", what, id, k.X)
		}
		if k.D.BitLen() > 64 && strings.Contains(strings.ToLower(res.out), fmt.Sprintf("%x", k.D)) {
			return keys, bad("shown", "%s: the private number is shown", what)
		}
		keys = append(append([]kgKey{}, keys...), kgKey{cls, id, pass, k.D})
		for _, p := range changed {
			if p != aliasPath {
				return keys, bad("changed", "%s: %s changed", what, p)
			}
		}
		for _, p := range other {
			if p != aliasPath {
				return keys, bad("added", "%s: %s is new", what, p)
			}
		}
		if aliasPath != "" && blocked {
			if res.exit == 0 {
				return keys, bad("exit", "%s: the alias cannot be made, but reports success", what)
			}
			if len(changed)+len(other) > 0 {
				return keys, bad("alias", "%s: the entry in place of the alias changed", what)
			}
			break
		}
		if res.exit != 0 {
			return keys, bad("exit", "%s: fails", what)
		}
		if aliasPath != "" {
			a, err := kgUsable(w, cls, r.alias, pass)
			if err != nil {
				return keys, bad("alias", "%s: under the alias: %v", what, err)
			}
			if a.D.Cmp(k.D) != 0 {
				return keys, bad("alias", "%s: the alias gives another key", what)
			}
		}
	}
	for _, k := range keys {
		if err := k.check(w); err != nil {
			return keys, bad("earlier", "%s: an earlier key: %v", what, err)
		}
	}
	// the state, with keys by number
	sh := newHash()
	for i, k := range keys {
		sh.str(fmt.Sprint(i, k.cls, k.pass))
	}
	var paths []string
	for p := range after {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		x := after[p]
		if strings.HasPrefix(x, "link") {
			for i, k := range keys {
				x = strings.ReplaceAll(x, k.id, fmt.Sprint("key ", i))
			}
			sh.str(p)
			sh.str(x)
		}
	}
	w.State(uint64(sh))
	h := "no alias"
	if there {
		h = "alias there"
	}
	w.Outcome(refused, made, blocked, h, r.force, r.class, len(r.lines), res.exit)
	return keys, nil
}

const (
	kgP1 = "correct horse"
	kgP2 = "battery staple 17+" // longer than a block
)

var kgPass = map[string][]string{
	"ok":       {kgP1, kgP1},
	"ok2":      {kgP2, kgP2},
	"mismatch": {kgP1, kgP2},
	"short":    {"seven77", "seven77"},
}

func kgSetAlias(state string, cls int, alias, id string) {
	p := util.LCGetEtcDir(cls) + "/" + alias
	d := util.LCGetEtcDir(cls)
	abs := d
	if !filepath.IsAbs(abs) {
		abs = "/proc/self/cwd/" + d
	}
	switch state {
	case "absent":
	case "link":
		os.Symlink(abs+"/"+id, p)
	case "relative link":
		os.Symlink(id, p)
	case "dangling":
		os.Symlink(abs+"/gone", p)
	case "link to link":
		os.Symlink(id, d+"/second")
		os.Symlink("second", p)
	case "loop":
		os.Symlink(alias, p)
	case "file":
		os.WriteFile(p, []byte("text"), 0644)
	case "empty dir":
		os.Mkdir(p, 0755)
	case "dir":
		os.Mkdir(p, 0755)
		os.WriteFile(p+"/node_id.pub", []byte("x"), 0644)
	}
}

// kgFirst makes one key (of class node, with the pass phrase kgP1).
func kgFirst(w *W, class, alias string) ([]kgKey, error) {
	kgReset()
	return kgStep(w, kgRun{class: class, alias: alias, lines: []string{kgP1, kgP1}}, nil)
}

func init() {
	register("C24", checkInfo{level: "model_checking",
		rule: "a state is the content of the key directories; every run of the command with every combination of class, alias name, force flag, state of the alias entry, answer and pass phrases of the enumerated sets, and all sequences of two runs (thorough: three) over a smaller set, is executed as a process and compared with a model of what may change; besides, system calls of a run fail or kill it one by one",
		assum: []string{"the key directory literal of the sources is replaced by a scratch directory when the command is built",
			"input comes from a pipe, one line when the one before is consumed", "an alias naming a directory with content cannot be replaced: the run fails"}},
		runC24)
	helpers["promptop"] = func(a []string) {
		// op cls id x d
		cls, _ := strconv.Atoi(a[1])
		x, _ := new(big.Int).SetString(a[3], 16)
		d, _ := new(big.Int).SetString(a[4], 16)
		var r kfReply
		var err error
		switch a[0] {
		case "save":
			err = util.LCSaveKeyPairPrompt(cls, a[2], x, d)
		case "load":
			var k *ecdsa.PrivateKey
			k, err = util.LCLoadPrivKeyPrompt(cls, a[2])
			if err == nil {
				r.X, r.Y, r.D = fmt.Sprintf("%x", k.X), fmt.Sprintf("%x", k.Y), fmt.Sprintf("%x", k.D)
			}
		}
		if err != nil {
			r.Err = "error: " + err.Error()
		}
		fmt.Println()
		fmt.Print("VF-REPLY ")
		json.NewEncoder(os.Stdout).Encode(r)
	}
}

func kgPrompt(op string, cls int, id string, k *ecdsa.PrivateKey, lines ...string) (*kfReply, string) {
	self, _ := os.Readlink("/proc/self/exe")
	cmd := exec.Command(self, "promptop", op, strconv.Itoa(cls), id, fmt.Sprintf("%x", k.X), fmt.Sprintf("%x", k.D))
	res := kgFeed(cmd, lines)
	i := strings.Index(res.out, "VF-REPLY ")
	var r kfReply
	if i < 0 || json.Unmarshal([]byte(res.out[i+9:]), &r) != nil {
		return nil, res.out
	}
	return &r, res.out
}

func runC24(w *W) {
	kfScratch()
	w.limit.Store(120)
	if filepath.IsAbs(kgRoot()) {
		// the literal is gone from the sources: one worker, and only when nothing is there
		if w.Shard != 0 {
			return
		}
		if _, err := os.Lstat(kgRoot()); err == nil {
			w.Note("key_directory_in_use", 1)
			w.exhaustive = false
			return
		}
		kgOwnRoot = true
		w.N = 1
		defer os.RemoveAll(kgRoot())
	}
	// 1. single runs: class x alias state x force x answer x pass phrases
	states := []string{"absent", "link", "relative link", "dangling", "link to link", "loop", "file", "empty dir", "dir"}
	answers := []string{"(none)", "y", "Y", " y", "y ", "n", "N", "", "yes", "Yes", "no", "yy", "ny", "1", "true", "ja", "-y", "y n", "y\r"}
	pn := []string{"ok", "ok2", "mismatch", "short"}
	for _, class := range []string{"node", "cluster", "universe", "service", "federation"} {
		for _, st := range states {
			for _, force := range []bool{false, true} {
				for _, ans := range answers {
					for _, pp := range pn {
						if class != "node" && class != "service" && (pp != "ok" || len(ans) > 1) && w.Quick() {
							continue
						}
						r := kgRun{class: class, alias: "first", force: force}
						if ans != "(none)" {
							r.lines = append(r.lines, ans)
						}
						r.lines = append(r.lines, kgPass[pp]...)
						st := st
						w.Case("run", func() string { return fmt.Sprintf("alias is %s; %v", st, r) }, func() error {
							keys, err := kgFirst(w, r.class, "")
							if err != nil {
								return err
							}
							kgSetAlias(st, kgClasses[r.class], r.alias, keys[0].id)
							_, err = kgStep(w, r, keys)
							w.traces++
							return err
						})
					}
				}
			}
		}
	}
	// 2. pass phrases: lengths and differences
	type pair struct{ a, b string }
	var pairs []pair
	long := strings.Repeat("0123456789abcdef", 20)
	for n := 0; n <= 40; n++ {
		pairs = append(pairs, pair{long[:n], long[:n]})
		if n > 0 {
			pairs = append(pairs, pair{long[:n], long[:n-1]}, pair{long[:n-1], long[:n]}, pair{long[:n], long[:n-1] + "X"}, pair{long[:n], "X" + long[1:n]},
				pair{long[:n], ""}, pair{"", long[:n]})
		}
	}
	pairs = append(pairs, pair{long, long}, pair{long, long[:319]}, pair{long, long[:319] + "x"}, pair{"Password", "password"}, pair{"p\u00e4ssw\u00f6rd", "p\u00e4ssw\u00f6rd"},
		pair{"        ", "        "}, pair{"       ", "       "}, pair{" leading space", " leading space"}, pair{"leading space", " leading space"},
		pair{"trailing ", "trailing "}, pair{"trailing ", "trailing"}, pair{"\u00e4\u00e4\u00e4", "\u00e4\u00e4\u00e4"}, pair{"\u00e4\u00e4\u00e4\u00e4", "\u00e4\u00e4\u00e4\u00e4"},
		pair{"%d%s%v%x", "%d%s%v%x"}, pair{"y", "y"}, pair{"\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8", "\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8"})
	for _, n := range []int{510, 511, 512, 513, 514, 1024} {
		pairs = append(pairs, pair{strings.Repeat("z", n), strings.Repeat("z", n)})
	}
	// editing keys and interruptions
	for _, e := range []string{"\x7f", "\x08", "\x03", "\x00", "\x7f\x7f", "x\x7f", "\x15", "\x1b[D"} {
		for _, at := range []int{0, 1, 7, 8, 13} {
			t := kgP1[:at] + e + kgP1[at:]
			pairs = append(pairs, pair{t, t}, pair{t, kgP1}, pair{kgP1, t}, pair{kgP1[:8], kgP1[:8] + e}, pair{kgP1[:8] + e, kgP1[:8]})
		}
	}
	for _, p := range pairs {
		for _, alias := range []string{"", "al"} {
			p, alias := p, alias
			w.Case("pass", func() string { return fmt.Sprintf("%q %q alias %q", p.a, p.b, alias) }, func() error {
				kgReset()
				_, err := kgStep(w, kgRun{class: "cluster", alias: alias, lines: []string{p.a, p.b}}, nil)
				w.traces++
				return err
			})
		}
	}
	// every class has aliases of its own
	names := []string{"node", "cluster", "universe", "service", "federation"}
	for _, c1 := range names {
		for _, c2 := range names {
			c1, c2, n1, n2 := c1, c2, kgClasses[c1], kgClasses[c2]
			if c1 == c2 {
				continue
			}
			w.Case("classes", func() string { return fmt.Sprintf("-alias=a of class %s, then of class %s", c1, c2) }, func() error {
				keys, err := kgFirst(w, c1, "a")
				if err != nil {
					return err
				}
				r := kgRun{class: c2, alias: "a", lines: []string{kgP2, kgP2}}
				res := kgExec(r, nil)
				w.transitions++
				w.traces++
				if res.exit != 0 {
					return bad("classes", "%v: exit %d, output %q, though only class %s has this alias", r, res.exit, trunc(res.out, 300), c1)
				}
				k, err := kgUsable(w, n2, "a", kgP2)
				if err != nil {
					return bad("classes", "%v: the new alias: %v", r, err)
				}
				if k.D.Cmp(keys[0].d) == 0 {
					return bad("classes", "%v: the alias of class %s gives the key of class %s", r, c2, c1)
				}
				if k, err = kgUsable(w, n1, "a", kgP1); err != nil {
					return bad("classes", "%v: the alias of class %s: %v", r, c1, err)
				}
				if k.D.Cmp(keys[0].d) != 0 {
					return bad("classes", "%v: the alias of class %s gives another key now", r, c1)
				}
				w.Outcome("classes", n1, n2)
				return nil
			})
		}
	}
	// 3. input that ends early
	for n := 0; n < 3; n++ {
		for _, st := range []string{"absent", "link"} {
			for _, force := range []bool{false, true} {
				n, st, force := n, st, force
				w.Case("eof", func() string { return fmt.Sprintf("%d lines, alias %s, force %v", n, st, force) }, func() error {
					keys, err := kgFirst(w, "node", "")
					if err != nil {
						return err
					}
					kgSetAlias(st, util.CLS_NODE, "a", keys[0].id)
					lines := []string{kgP1, kgP1}
					if st == "link" && !force {
						lines = []string{"y", kgP1, kgP1}
					}
					_, err = kgStep(w, kgRun{class: "node", alias: "a", force: force, lines: lines[:n]}, keys)
					return err
				})
			}
		}
	}
	// an end of input in place of a line end, after which more input comes
	for _, st := range []string{"absent", "link", "dangling"} {
		for _, ans := range []string{"(none)", "y", kgEOF, "y" + kgEOF, "n" + kgEOF, " " + kgEOF, "ye" + kgEOF, "", "n"} {
			for _, pp := range [][]string{{kgP1, kgP1}, {kgEOF, kgP1, kgP1}, {kgP1 + kgEOF, kgP1}, {kgP1 + kgEOF, kgP1, kgP1}, {kgP1, kgEOF, kgP1}, {kgP1, kgP1 + kgEOF}, {kgP1[:8] + kgEOF, kgP1[:8]}, {kgEOF, kgEOF}, {"y", kgP1, kgP1}} {
				for _, force := range []bool{false, true} {
					r := kgRun{class: "node", alias: "first", force: force}
					if ans != "(none)" {
						r.lines = append(r.lines, ans)
					}
					r.lines = append(r.lines, pp...)
					st := st
					w.Case("more", func() string { return fmt.Sprintf("alias is %s; %v", st, r) }, func() error {
						keys, err := kgFirst(w, r.class, "")
						if err != nil {
							return err
						}
						kgSetAlias(st, kgClasses[r.class], r.alias, keys[0].id)
						_, err = kgStep(w, r, keys)
						w.traces++
						return err
					})
				}
			}
		}
	}
	// 4. classes and alias names
	for _, class := range []string{"-", "", "nodes", "Node", "NODE", "nod", " node", "node ", "cluster,node", "0", "all", "federations"} {
		for _, alias := range []string{"", "a"} {
			class, alias := class, alias
			w.Case("class", func() string { return fmt.Sprintf("class %q alias %q", class, alias) }, func() error {
				keys, err := kgFirst(w, "node", "a")
				if err != nil {
					return err
				}
				_, err = kgStep(w, kgRun{class: class, alias: alias, lines: []string{kgP1, kgP1}}, keys)
				return err
			})
		}
	}
	for _, alias := range []string{"b", "a b", "\u00e4", "x.y", ".hidden", "A", "aa", "missing/x", "0123", "node_id", "n%d", strings.Repeat("l", 255), strings.Repeat("l", 256), "ID", "a/x"} {
		for _, force := range []bool{false, true} {
			alias, force := alias, force
			w.Case("alias", func() string { return fmt.Sprintf("alias %q force %v", alias, force) }, func() error {
				keys, err := kgFirst(w, "node", "a")
				if err != nil {
					return err
				}
				if alias == "ID" { // the name of the key that is there
					alias = keys[0].id
				}
				if len(alias) > 255 {
					before := kgSnap()
					res := kgExec(kgRun{class: "node", alias: alias, force: force, lines: []string{kgP1, kgP1, kgP1}}, nil)
					changed, _ := before.diff(kgSnap())
					if res.exit == 0 || len(changed) > 0 {
						return bad("alias", "an alias name that is too long: exit %d, changed %v", res.exit, changed)
					}
					return nil
				}
				if alias == "a/x" {
					// lies in the directory of the first key
					_, err := kgStepIn(w, kgRun{class: "node", alias: alias, force: force, lines: []string{kgP1, kgP1}}, keys)
					return err
				}
				_, err = kgStep(w, kgRun{class: "node", alias: alias, force: force, lines: []string{kgP2, kgP2}}, keys)
				return err
			})
		}
	}
	// the private number: every class of lengths of it and of its public number
	ds := scalars(4, false)
	for _, d := range shortX {
		ds = append(ds, big.NewInt(d), new(big.Int).Sub(p256.N, big.NewInt(d)))
	}
	if !w.Quick() {
		ds = append(ds, scalars(300, true)...)
	}
	for i, d := range ds {
		for _, alias := range []string{"", "a", "new"} {
			d, alias := d, alias
			w.Case("number", func() string { return fmt.Sprintf("private number %x, alias %q", d, alias) }, func() error {
				keys, err := kgFirst(w, "node", "a")
				if err != nil {
					return err
				}
				r := kgRun{class: "node", alias: alias, force: true, lines: []string{kgP2, kgP2}, rand: d}
				keys, err = kgStep(w, r, keys)
				if err != nil {
					return err
				}
				x, _, _ := refPublic(d)
				if k := keys[len(keys)-1]; x != nil && strings.TrimLeft(k.id, "0") == fmt.Sprintf("%x", x) {
					w.Note("chosen_private_numbers", 1)
				}
				if i%4 == 0 { // once more in the same place
					_, err = kgStep(w, kgRun{class: "node", alias: "a", force: true, lines: []string{kgP1, kgP1}, rand: new(big.Int).Add(ds[(i+1)%len(ds)], big.NewInt(7))}, keys)
				}
				return err
			})
		}
	}
	// 5. sequences of runs
	var ops []kgRun
	for _, class := range []string{"node", "cluster"} {
		for _, alias := range []string{"", "a", "b"} {
			for _, force := range []bool{false, true} {
				for _, ans := range []string{"(none)", "y", "n"} {
					for _, pp := range []string{"ok", "ok2", "mismatch"} {
						if class == "cluster" && (alias == "b" || ans == "n" || pp == "ok2") || alias == "" && (force || ans != "(none)") ||
							force && (ans != "(none)" || pp == "mismatch") {
							continue
						}
						r := kgRun{class: class, alias: alias, force: force}
						if ans != "(none)" {
							r.lines = append(r.lines, ans)
						}
						r.lines = append(r.lines, kgPass[pp]...)
						ops = append(ops, r)
					}
				}
			}
		}
	}
	depth := 2
	if !w.Quick() {
		depth = 3
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for c := 0; c < total; c++ {
		c := c
		var seq []kgRun
		for i, x := 0, c; i < depth; i++ {
			seq = append(seq, ops[x%len(ops)])
			x /= len(ops)
		}
		w.Case("history", func() string { return fmt.Sprintf("%v", seq) }, func() error {
			keys, err := kgFirst(w, "node", "a")
			if err != nil {
				return err
			}
			for i, r := range seq {
				if keys, err = kgStep(w, r, keys); err != nil {
					ce := err.(*caseError)
					return bad(ce.sig, "run %d: %v", i, err)
				}
			}
			w.traces++
			return nil
		})
	}
	// 6. a key is read back by prompting for its pass phrase
	for _, p := range pairs {
		p := p
		if p.a == "" {
			continue
		}
		w.Case("prompt", func() string { return fmt.Sprintf("%q, then %q", p.a, p.b) }, func() error {
			kgReset()
			key := kfKeys(1)[0]
			s := kfSlot{util.CLS_NODE, "p"}
			pass, ok := kgTyped(p.a)
			ok = ok && len(pass) >= 8
			if ok {
				keys, err := kgStep(w, kgRun{class: "universe", lines: []string{p.a, p.a}}, nil)
				if err != nil {
					return err
				}
				r, out := kgPrompt("load", util.CLS_UNIVERSE, keys[0].id, key, p.a)
				if r == nil || r.Err != "" || r.D != fmt.Sprintf("%x", keys[0].d) {
					return bad("prompt-load", "a generated key is not read with its pass phrase: %v %s", r, out)
				}
			}
			r, out := kgPrompt("save", s.cls, s.id, key, p.a)
			if r == nil {
				return bad("prompt-save", "saving dies: %s", out)
			}
			w.transitions++
			if !ok {
				if r.Err == "" {
					return bad("prompt-short", "a pass phrase of %d typed bytes, too short or broken off, is accepted", len(p.a))
				}
				if len(kfFiles(s.cls, s.id)) > 0 {
					return bad("prompt-short", "a refused pass phrase leaves key files")
				}
				return nil
			}
			if r.Err != "" {
				return bad("prompt-save", "saving with a pass phrase of %d bytes: %s", len(p.a), r.Err)
			}
			if strings.Contains(out, p.a) {
				return bad("shown", "the pass phrase is shown")
			}
			for _, q := range []string{p.a, p.b, p.a + "x", "x" + p.a} {
				r, out := kgPrompt("load", s.cls, s.id, key, q)
				w.transitions++
				if r == nil {
					return bad("prompt-load", "loading dies: %s", out)
				}
				tq, okq := kgTyped(q)
				want := okq && len(tq) >= 8 && bytes.Equal(kgSecret(tq), kgSecret(pass))
				if want && (r.Err != "" || r.D != fmt.Sprintf("%x", key.D) || r.X != fmt.Sprintf("%x", key.X) || r.Y != fmt.Sprintf("%x", key.Y)) {
					return bad("prompt-load", "saved with %q, loading with %q gives %v", p.a, q, r)
				}
				if !want && r.Err == "" && !(okq && len(tq) > 16 && strings.HasPrefix(tq, pass[:1])) {
					return bad("prompt-wrong", "saved with %q, loading with %q succeeds", p.a, q)
				}
			}
			if r, _ := kgPrompt("load", s.cls, "nothing-here", key, p.a); r == nil || r.Err == "" {
				return bad("prompt-load", "a key that does not exist is loaded, or it dies: %v", r)
			}
			w.Outcome("prompt", len(p.a))
			w.traces++
			return nil
		})
	}
	kgFaults(w)
	kgReset()
}

// kgStepIn is kgStep for an alias inside a key directory.
func kgStepIn(w *W, r kgRun, keys []kgKey) ([]kgKey, error) {
	before := kgSnap()
	res := kgExec(r, nil)
	changed, _ := before.diff(kgSnap())
	if len(changed) > 0 {
		return keys, bad("changed", "%v: %v changed (exit %d)", r, changed, res.exit)
	}
	for _, k := range keys {
		if err := k.check(w); err != nil {
			return keys, err
		}
	}
	return keys, nil
}

// kgFaults: system calls of a run fail, or the process is killed there.
func kgFaults(w *W) {
	if _, err := exec.LookPath("strace"); err != nil {
		w.Note("strace_missing", 1)
		w.exhaustive = false
		return
	}
	type scen struct {
		name string
		run  kgRun
	}
	scens := []scen{
		{"new alias", kgRun{class: "node", alias: "b", lines: []string{kgP2, kgP2}}},
		{"replaced alias", kgRun{class: "node", alias: "a", lines: []string{"y", kgP2, kgP2}}},
		{"forced alias", kgRun{class: "node", alias: "a", force: true, lines: []string{kgP2, kgP2}}},
		{"kept alias", kgRun{class: "node", alias: "a", lines: []string{"n", kgP2, kgP2}}},
	}
	for si, sc := range scens {
		if _, err := kgFirst(w, "node", "a"); err != nil {
			return
		}
		res := kgExec(sc.run, []string{"-e", kfTraced})
		count := map[string]int{}
		for _, l := range strings.Split(res.strace, "\n") {
			if m := straceCall.FindStringSubmatch(l); m != nil {
				count[m[2]]++
			}
		}
		for name, n := range count {
			switch {
			case strings.HasPrefix(name, "epoll"), strings.HasPrefix(name, "eventfd"), name == "fcntl", name == "execve", name == "mmap", name == "arch_prctl", name == "readlinkat", name == "uname":
				delete(count, name)
			}
			_ = n
		}
		// the calls counted may differ a little between runs: go a bit further
		var names []string
		for n := range count {
			names = append(names, n)
		}
		sort.Strings(names)
		// the number of calls differs between workers at times: cases are numbered by name and ordinal
		for _, name := range names {
			for nth := 1; nth <= count[name] && nth <= 64; nth++ {
				for fi, f := range []string{"EIO", "EACCES", "ENOSPC", "KILL"} {
					si, sc, name, nth, f := si, sc, name, nth, f
					h := newHash()
					h.str(name)
					w.CaseN("fault", int(uint32(h)>>8)+nth*4+fi, func() string { return fmt.Sprintf("%s %s#%d %s", sc.name, name, nth, f) }, func() error {
						keys, err := kgFirst(w, "node", "a")
						if err != nil {
							return err
						}
						before := kgSnap()
						inj := fmt.Sprintf("inject=%s:error=%s:when=%d", name, f, nth)
						if f == "KILL" {
							inj = fmt.Sprintf("inject=%s:signal=KILL:when=%d", name, nth)
						}
						res := kgExec(sc.run, []string{"-e", kfTraced, "-e", inj})
						w.transitions++
						if res.hang {
							return bad("hang", "%s: %s at %s#%d: does not end", sc.name, f, name, nth)
						}
						after := kgSnap()
						changed, added := before.diff(after)
						newKeys, _ := kgNew(added, after)
						aliasPath := util.LCGetEtcDir(util.CLS_NODE) + "/" + sc.run.alias
						what := fmt.Sprintf("%s, %s at %s#%d: exit %d, output %q", sc.name, f, name, nth, res.exit, trunc(res.out, 300))
						for _, p := range changed {
							if p != aliasPath || si == 0 || si == 3 {
								return bad("fault-changed", "%s: %s changed", what, p)
							}
						}
						if err := keys[0].check(w); err != nil {
							return bad("fault-earlier", "%s: the earlier key: %v", what, err)
						}
						if si == 3 && len(added) > 0 {
							return bad("fault-added", "%s: %v are new", what, added)
						}
						if len(newKeys) > 1 {
							return bad("fault-keys", "%s: new keys %v", what, newKeys)
						}
						// the alias is gone, is what it was, or gives the new key
						state := "gone"
						if now, ok := after[aliasPath]; ok && now == before[aliasPath] {
							state = "old"
						} else if ok {
							state = "new"
							if len(newKeys) != 1 {
								return bad("fault-alias", "%s: the alias points to a key that was not made", what)
							}
							k, err := kgUsable(w, util.CLS_NODE, sc.run.alias, kgP2)
							if err != nil {
								return bad("fault-alias", "%s: under the alias: %v", what, err)
							}
							if x, _ := new(big.Int).SetString(filepath.Base(newKeys[0]), 16); x == nil || x.Cmp(k.X) != 0 {
								return bad("fault-alias", "%s: the alias gives another key", what)
							}
						}
						if res.exit == 0 && (si == 3 || state != "new") {
							return bad("fault-exit", "%s: reports success, but the alias is %s", what, state)
						}
						w.Note("system_call_faults", 1)
						w.Outcome("fault", si, f, state, len(newKeys), res.exit == 0)
						return nil
					})
				}
			}
		}
	}
}
