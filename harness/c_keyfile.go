package main

import (
	"bytes"
	"crypto/ecdsa"
	crand "crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C19: key files.  The library keeps its keys below a scratch directory (the
// build replaces the literal of the key directory, see check.sh); were that
// literal gone, identifiers of this process alone would be used instead.

var kfClasses = []int{util.CLS_NODE, util.CLS_CLUSTER, util.CLS_UNIVERSE, util.CLS_SERVICE, util.CLS_FEDERATION}

func kfDir(cls int, id string) string { return util.LCGetEtcDir(cls) + "/" + id }

// kfID makes an identifier that is unique when the key directory is a real one.
func kfID(s string) string {
	if filepath.IsAbs(util.LCGetEtcDir(util.CLS_NODE)) {
		return fmt.Sprintf("vf%d-%s", os.Getppid(), s)
	}
	return s
}

func kfScratch() {
	if d := os.Getenv("VF_SCRATCH"); d != "" {
		os.Chdir(d)
	}
	syscall.Umask(0)
}

func kfClean(cls int, id string) {
	if id != "" && id != "." && id != ".." && !strings.Contains(id, "/") {
		os.RemoveAll(kfDir(cls, id))
	}
}

// kfKeys: key pairs as the library generates them (Y is the one that belongs to X alone)
func kfKeys(n int) []*ecdsa.PrivateKey {
	var ks []*ecdsa.PrivateKey
	add := func(d *big.Int) {
		k := util.ECDSAGetPrivateKey(be32(d))
		if p := util.ECDSAGetPublicKey(be32(k.X)); p != nil && p.Y != nil && p.Y.Cmp(k.Y) != 0 {
			k = util.ECDSAGetPrivateKey(be32(new(big.Int).Sub(p256.N, d)))
		}
		ks = append(ks, k)
	}
	pat := make([]byte, 32)
	for i := range pat {
		pat[i] = byte(i*7 + 3)
	}
	add(new(big.Int).SetBytes(pat))
	add(new(big.Int).SetBytes(append(make([]byte, 8), pat[:24]...))) // private number with leading zero bytes
	for i := int64(1 << 40); ; i++ {                                 // public coordinate with a leading zero byte
		if x, _, err := refPublic(big.NewInt(i)); err == nil && x.BitLen() <= 248 {
			add(big.NewInt(i))
			break
		}
	}
	for _, d := range shortX[:] { // more of them, and trailing zero bytes
		if len(ks) < n {
			add(new(big.Int).Sub(p256.N, big.NewInt(d)))
		}
	}
	for i := 0; len(ks) < n; i++ {
		pat[i%32] ^= byte(0x80 + i)
		add(new(big.Int).SetBytes(pat))
	}
	return ks[:n]
}

func pattern(n, mul, add int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*mul + add)
	}
	return b
}

var kfSecrets = [][]byte{pattern(16, 3, 1), append([]byte("poodle"), make([]byte, 10)...), pattern(24, 5, 2), pattern(32, 7, 3), make([]byte, 16)}

type kfSlot struct {
	cls int
	id  string
}

type kfContent struct{ key, secret int } // indices; key < 0: nothing saved

// loadPub gives the loaded public key as (x,y) text, or the error
func samePriv(a, b *ecdsa.PrivateKey) bool {
	return a != nil && b != nil && a.D != nil && b.D != nil && a.D.Cmp(b.D) == 0 && samePublic(&a.PublicKey, &b.PublicKey)
}

// kfExpect reads slot s in every way and compares it with what must be there.
func kfExpect(w *W, s kfSlot, want kfContent, keys []*ecdsa.PrivateKey, secrets [][]byte) error {
	pub, err := util.LCLoadPubKey(s.cls, s.id)
	w.transitions++
	if want.key < 0 {
		if err == nil {
			return bad("load-missing", "no key saved under class %d id %s, but a public key %x is read", s.cls, s.id, pub.X)
		}
		if util.LCExistPubKey(s.cls, s.id) || util.LCExistPrivKey(s.cls, s.id) {
			return bad("exist", "no key saved under class %d id %s, but a key is said to exist", s.cls, s.id)
		}
	} else {
		if err != nil || !samePublic(pub, &keys[want.key].PublicKey) {
			return bad("load-public", "class %d id %s: public key read is %v (error %v), saved was %x", s.cls, s.id, pub, err, keys[want.key].X)
		}
		if !util.LCExistPubKey(s.cls, s.id) || !util.LCExistPrivKey(s.cls, s.id) {
			return bad("exist", "a key is saved under class %d id %s, but is said not to exist", s.cls, s.id)
		}
	}
	for i, sec := range secrets {
		in := append([]byte{}, sec...)
		k, err := util.LCLoadPrivKey(s.cls, s.id, in)
		w.transitions++
		if !bytes.Equal(in, sec) {
			return bad("modified", "loading changes the secret")
		}
		if want.key >= 0 && i == want.secret {
			if err != nil || !samePriv(k, keys[want.key]) {
				return bad("load-private", "class %d id %s: private key read is %v (error %v), saved was %x", s.cls, s.id, k, err, keys[want.key].D)
			}
		} else if err == nil {
			return bad("wrong-secret", "class %d id %s: private key %v is read with a secret it was not saved under", s.cls, s.id, k.D)
		}
	}
	return nil
}

func kfSave(s kfSlot, k *ecdsa.PrivateKey, secret []byte) error {
	sec := append([]byte{}, secret...)
	x, d := new(big.Int).Set(k.X), new(big.Int).Set(k.D)
	err := util.LCSaveKeyPair(s.cls, s.id, x, d, sec)
	if x.Cmp(k.X) != 0 || d.Cmp(k.D) != 0 || !bytes.Equal(sec, secret) {
		return bad("modified", "saving changes its arguments")
	}
	return err
}

// kfFiles gives the regular files below the directory of a key, with their content.
func kfFiles(cls int, id string) map[string][]byte {
	m := map[string][]byte{}
	filepath.Walk(kfDir(cls, id), func(p string, st os.FileInfo, err error) error {
		if err == nil && st.Mode().IsRegular() {
			if b, e := os.ReadFile(p); e == nil {
				m[p] = b
			}
		}
		return nil
	})
	return m
}

func kfPaths(m map[string][]byte) []string {
	var p []string
	for x := range m {
		p = append(p, x)
	}
	sort.Strings(p)
	return p
}

func kfRestore(m map[string][]byte) {
	for p, b := range m {
		os.WriteFile(p, b, 0600)
	}
}

// kfNoLeak checks the mode of the private key file and that no file holds the private number in clear.
func kfNoLeak(cls int, id string, k *ecdsa.PrivateKey, secret []byte) error {
	files := kfFiles(cls, id)
	nPriv := 0
	for _, p := range kfPaths(files) {
		b := files[p]
		// a private key file is one without which the private key cannot be read
		os.Remove(p)
		_, err := util.LCLoadPrivKey(cls, id, append([]byte{}, secret...))
		st := os.WriteFile(p, b, 0600)
		if st != nil {
			return st
		}
		if err != nil {
			nPriv++
		}
	}
	if nPriv == 0 {
		return bad("files", "the private key is read without any of the files saved")
	}
	low := func(b []byte) string { return strings.ToLower(string(b)) }
	var forms []string
	for _, d := range [][]byte{be32(k.D), k.D.Bytes()} {
		if len(d) < 16 { // so few bytes are there by chance
			continue
		}
		rev := make([]byte, len(d))
		for i := range d {
			rev[len(d)-1-i] = d[i]
		}
		for _, x := range [][]byte{d, rev} {
			forms = append(forms, low([]byte(hex.EncodeToString(x))), low(x), low([]byte(base64.StdEncoding.EncodeToString(x))))
		}
	}
	if k.D.BitLen() >= 128 {
		forms = append(forms, k.D.String())
	}
	for _, p := range kfPaths(files) {
		// the content, and what its hexadecimal text stands for
		texts := []string{low(files[p])}
		raw := make([]byte, len(files[p]))
		if n, err := hex.Decode(raw, bytes.TrimSpace(files[p])); err == nil {
			texts = append(texts, low(raw[:n]))
		}
		for _, t := range texts {
			for _, f := range forms {
				if strings.Contains(t, f) {
					return bad("clear", "file %s contains the private number in clear", filepath.Base(p))
				}
			}
		}
	}
	return nil
}

func kfModes(cls int, id string, k *ecdsa.PrivateKey, secret []byte) error {
	files := kfFiles(cls, id)
	for _, p := range kfPaths(files) {
		st, err := os.Stat(p)
		if err != nil {
			return err
		}
		b := files[p]
		os.Rename(p, p+".away")
		_, e := util.LCLoadPrivKey(cls, id, append([]byte{}, secret...))
		os.Rename(p+".away", p)
		_ = b
		if e != nil && st.Mode().Perm()&0077 != 0 {
			return bad("mode", "private key file %s has mode %v", filepath.Base(p), st.Mode())
		}
	}
	return nil
}

// ---- faults: a helper process saves or loads one key

type kfReply struct {
	Err     string
	X, Y, D string
}

func init() {
	if len(os.Args) > 1 && os.Args[1] == "keyop" {
		runtime.LockOSThread() // the operation stays in the main thread
	}
	helpers["keyop"] = func(a []string) {
		// dir op cls id x d secret fsize(-1: none) ignore|die
		os.Chdir(a[0])
		syscall.Umask(0)
		crand.Reader = &fixedReader{pat: pattern(64, 11, 5)}
		cls, _ := strconv.Atoi(a[2])
		x, _ := new(big.Int).SetString(a[4], 16)
		d, _ := new(big.Int).SetString(a[5], 16)
		sec, _ := hex.DecodeString(a[6])
		if fs, _ := strconv.Atoi(a[7]); fs >= 0 {
			if a[8] == "ignore" {
				signal.Ignore(syscall.SIGXFSZ)
			}
			l := syscall.Rlimit{Cur: uint64(fs), Max: uint64(fs)}
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
		}
		var r kfReply
		os.Stat("VF-MARK-BEGIN")
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Err = fmt.Sprintf("panic: %v", p)
				}
			}()
			var err error
			switch a[1] {
			case "save":
				err = util.LCSaveKeyPair(cls, a[3], x, d, sec)
			case "loadpub":
				var k *ecdsa.PublicKey
				k, err = util.LCLoadPubKey(cls, a[3])
				if err == nil {
					r.X, r.Y = fmt.Sprintf("%x", k.X), fmt.Sprintf("%x", k.Y)
				}
			case "loadpriv":
				var k *ecdsa.PrivateKey
				k, err = util.LCLoadPrivKey(cls, a[3], sec)
				if err == nil {
					r.X, r.Y, r.D = fmt.Sprintf("%x", k.X), fmt.Sprintf("%x", k.Y), fmt.Sprintf("%x", k.D)
				}
			}
			if err != nil {
				r.Err = "error: " + err.Error()
			}
		}()
		os.Stat("VF-MARK-END")
		json.NewEncoder(os.Stdout).Encode(r)
	}
}

// keyop runs the helper, under strace when args are given.  reply is nil when it died.
func keyop(dir, op string, s kfSlot, k *ecdsa.PrivateKey, secret []byte, fsize int, mode string, strace []string) (*kfReply, string) {
	self, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return nil, ""
	}
	args := []string{"keyop", dir, op, strconv.Itoa(s.cls), s.id, fmt.Sprintf("%x", k.X), fmt.Sprintf("%x", k.D), hex.EncodeToString(secret), strconv.Itoa(fsize), mode}
	name := self
	traceFile := filepath.Join(dir, "strace.out")
	if strace != nil {
		args = append(append([]string{"-f", "-o", traceFile}, strace...), append([]string{self}, args...)...)
		name = "strace"
	}
	cmd := exec.Command(name, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	done := make(chan struct{})
	if cmd.Start() != nil {
		return nil, ""
	}
	go func() {
		select {
		case <-done:
		case <-time.After(15 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	}()
	cmd.Wait()
	close(done)
	tr := ""
	if strace != nil {
		b, _ := os.ReadFile(traceFile)
		os.Remove(traceFile)
		tr = string(b)
	}
	var r kfReply
	if json.Unmarshal(out.Bytes(), &r) != nil {
		return nil, tr
	}
	return &r, tr
}

var straceCall = regexp.MustCompile(`^(\d+) +([a-z_0-9]+)\(`)

type sysPoint struct {
	name string
	nth  int
	line string
}

const kfTraced = "trace=%file,%desc"

// between lists the system calls of an operation: name and ordinal among the calls of that name.
func between(tr string) (pts []sysPoint, ok bool) {
	count := map[string]int{}
	on, ended := false, false
	pid := "" // the operation runs in the main thread, and strace counts calls per thread
	for _, l := range strings.Split(tr, "\n") {
		m := straceCall.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if pid == "" {
			pid = m[1]
		}
		if m[1] != pid {
			continue
		}
		count[m[2]]++
		switch {
		case strings.Contains(l, "VF-MARK-BEGIN"):
			on = true
		case strings.Contains(l, "VF-MARK-END"):
			on, ended = false, true
		case on:
			pts = append(pts, sysPoint{m[2], count[m[2]], l})
		}
	}
	return pts, ended
}

// injectedInside tells whether the fault was injected while the operation ran.
func injectedInside(tr string) bool {
	b := strings.Index(tr, "VF-MARK-BEGIN")
	e := strings.Index(tr, "VF-MARK-END")
	i := strings.Index(tr, "(INJECTED)")
	return b >= 0 && i > b && (e < 0 || i < e)
}

// kfAfterFault: whatever happened, reading gives the old key, the new key or an error.
func kfAfterFault(w *W, s kfSlot, old *ecdsa.PrivateKey, oldSecret []byte, new_ *ecdsa.PrivateKey, newSecret []byte, saved bool) (string, error) {
	out := ""
	pub, err := util.LCLoadPubKey(s.cls, s.id)
	w.transitions++
	switch {
	case err != nil:
		out += "pub:error "
	case samePublic(pub, &new_.PublicKey):
		out += "pub:new "
	case old != nil && samePublic(pub, &old.PublicKey):
		out += "pub:old "
	default:
		return "", bad("fault-public", "a public key %x that was never saved is read", pub.X)
	}
	for i, sec := range [][]byte{newSecret, oldSecret} {
		if sec == nil {
			continue
		}
		k, err := util.LCLoadPrivKey(s.cls, s.id, append([]byte{}, sec...))
		w.transitions++
		switch {
		case err != nil:
			out += "priv:error "
		case bytes.Equal(sec, newSecret) && samePriv(k, new_):
			out += "priv:new "
		case i == 1 && samePriv(k, old) || old != nil && bytes.Equal(sec, oldSecret) && samePriv(k, old):
			out += "priv:old "
		default:
			return "", bad("fault-private", "a private key %x that was not saved under this secret is read", k.D)
		}
	}
	if saved && !strings.HasPrefix(out, "pub:new priv:new ") {
		return "", bad("fault-silent", "saving reported success, but reading gives %s", out)
	}
	return out, nil
}

func init() {
	register("C19", checkInfo{level: "fault_enumeration",
		rule: "each case is one history of saves under several classes and identifiers with every read after every save, or one corruption of a key file (truncation, change of every byte, one, two or three bits of what it encodes), one wrong secret, or one failed, interrupted, cut short or killed system call of a save or a load; outcomes are distinguished by what was read or which error was reported",
		assum: []string{"the key directory literal of the sources is replaced by a scratch directory when the harness is built",
			"after an interrupted save the private and the public key file are each old, new or unreadable, but may differ from one another"}},
		runC19)
}

func runC19(w *W) {
	kfScratch()
	if filepath.IsAbs(util.LCGetEtcDir(util.CLS_NODE)) {
		w.Note("key_directory_not_redirected", 1)
	}
	allKeys, secrets := kfKeys(18), kfSecrets
	keys := allKeys[:6]

	// a. every class, key, secret: read back; modes; clear text; identifiers as the command uses them
	w.Case("random-fails", func() string { return "-" }, func() error {
		old := crand.Reader
		defer func() { crand.Reader = old }()
		s := kfSlot{util.CLS_NODE, kfID("rf")}
		kfClean(s.cls, s.id)
		defer kfClean(s.cls, s.id)
		if err := kfSave(s, keys[0], secrets[0]); err != nil {
			return bad("save", "cannot save: %v", err)
		}
		crand.Reader = failReader{}
		if err := kfSave(s, keys[1], secrets[0]); err == nil {
			return bad("random-fails", "saving succeeds without random bytes")
		}
		crand.Reader = old
		return kfExpect(w, s, kfContent{0, 0}, keys, secrets[:1])
	})
	for _, cls := range kfClasses {
		for ki := range allKeys {
			for si := range secrets {
				for _, idn := range []string{"n", "hex"} {
					cls, ki, si, idn := cls, ki, si, idn
					w.Case("roundtrip", func() string { return fmt.Sprintf("class %d key %d secret %d id %s", cls, ki, si, idn) }, func() error {
						k := allKeys[ki]
						id := kfID("n")
						if idn == "hex" {
							id = kfID(fmt.Sprintf("%x", k.X.Bytes()))
						}
						s := kfSlot{cls, id}
						kfClean(cls, id)
						defer kfClean(cls, id)
						if err := kfExpect(w, s, kfContent{-1, 0}, allKeys, secrets); err != nil {
							return err
						}
						if err := kfSave(s, k, secrets[si]); err != nil {
							return bad("save", "cannot save: %v", err)
						}
						for rep := 0; rep < 2; rep++ {
							if err := kfExpect(w, s, kfContent{ki, si}, allKeys, secrets); err != nil {
								return err
							}
						}
						if err := kfModes(cls, id, k, secrets[si]); err != nil {
							return err
						}
						if err := kfNoLeak(cls, id, k, secrets[si]); err != nil {
							return err
						}
						w.Outcome("rt", cls, ki, si, idn)
						return nil
					})
				}
			}
		}
	}
	// b. encryption streams: two saves under one secret never share one
	for _, mode := range []string{"same-id", "other-id", "short-reads"} {
		for si := range secrets {
			mode, si := mode, si
			w.Case("streams", func() string { return fmt.Sprintf("%s secret %d", mode, si) }, func() error {
				old := crand.Reader
				defer func() { crand.Reader = old }()
				fr := &fixedReader{pat: pattern(251, 13, 7)}
				crand.Reader = fr
				if mode == "short-reads" {
					crand.Reader = &oneByteReader{fr}
				}
				type one struct {
					k     *ecdsa.PrivateKey
					files [][]byte
				}
				var saves []one
				for n := 0; n < 8; n++ {
					s := kfSlot{util.CLS_NODE, kfID("st")}
					if mode == "other-id" {
						s.id = kfID(fmt.Sprintf("st%d", n))
					}
					kfClean(s.cls, s.id)
					k := keys[n%3]
					if err := kfSave(s, k, secrets[si]); err != nil {
						return bad("save", "cannot save: %v", err)
					}
					o := one{k: k}
					fs := kfFiles(s.cls, s.id)
					for _, p := range kfPaths(fs) {
						raw := make([]byte, len(fs[p]))
						m, err := hex.Decode(raw, bytes.TrimSpace(fs[p]))
						if err != nil {
							raw, m = fs[p], len(fs[p])
						}
						o.files = append(o.files, append([]byte{}, raw[:m]...))
					}
					saves = append(saves, o)
					kfClean(s.cls, s.id)
				}
				for i := range saves {
					for j := 0; j < i; j++ {
						a, b := be32(saves[i].k.D), be32(saves[j].k.D)
						for f := range saves[i].files {
							if f >= len(saves[j].files) {
								continue
							}
							x, y := saves[i].files[f], saves[j].files[f]
							if bytes.Contains(x, be32(saves[i].k.X)) && bytes.Contains(y, be32(saves[j].k.X)) {
								continue // public
							}
							for at := 0; at+32 <= len(x) && at+32 <= len(y); at++ {
								same := true
								for c := 0; c < 32 && same; c++ {
									same = x[at+c]^y[at+c] == a[c]^b[c]
								}
								if same {
									return bad("stream", "saves %d and %d under one secret are encrypted with the same stream", j, i)
								}
							}
						}
						w.transitions++
					}
				}
				w.Outcome("st", mode, si)
				return nil
			})
		}
	}
	// streams of random bytes that agree in some places only: any two of them give different encryption streams
	for pos := 0; pos < 12; pos++ {
		pos := pos
		w.Case("nonce", func() string { return fmt.Sprintf("random bytes differ from byte %d on, or up to it", pos) }, func() error {
			old := crand.Reader
			defer func() { crand.Reader = old }()
			for _, upTo := range []bool{false, true} {
				var enc [][]byte
				s := kfSlot{util.CLS_NODE, kfID("nc")}
				for _, flip := range []byte{0, 0x5a} {
					crand.Reader = &flipReader{pat: pattern(251, 13, 7), pos: pos, upTo: upTo, flip: flip}
					kfClean(s.cls, s.id)
					if err := kfSave(s, keys[0], secrets[0]); err != nil {
						return bad("save", "cannot save: %v", err)
					}
					var all []byte
					fs := kfFiles(s.cls, s.id)
					for _, p := range kfPaths(fs) {
						all = append(all, fs[p]...)
					}
					enc = append(enc, all)
					kfClean(s.cls, s.id)
				}
				w.transitions += 2
				if bytes.Equal(enc[0], enc[1]) {
					return bad("nonce", "two saves of a key are encrypted with the same stream though the random bytes differ")
				}
			}
			w.Outcome("nonce", pos)
			return nil
		})
	}
	// two slots: no class or identifier is mistaken for another
	var all []kfSlot
	hexID := fmt.Sprintf("%x", keys[0].X.Bytes())
	for _, cls := range kfClasses {
		for _, id := range []string{"a", "ab", "A", "node", "node_id", "0" + hexID, hexID, hexID[:len(hexID)-1] + "g"} {
			all = append(all, kfSlot{cls, kfID(id)})
		}
	}
	for i := range all {
		for j := range all {
			a, b := all[i], all[j]
			if i == j {
				continue
			}
			w.Case("slots", func() string { return fmt.Sprintf("%v %v", a, b) }, func() error {
				for _, s := range []kfSlot{a, b} {
					kfClean(s.cls, s.id)
					defer kfClean(s.cls, s.id)
				}
				model := []kfContent{{-1, 0}, {-1, 0}}
				for step, o := range []kfContent{{0, 0}, {1, 1}, {2, 1}} {
					s := []kfSlot{a, b}[step%2]
					if err := kfSave(s, keys[o.key], secrets[o.secret]); err != nil {
						return bad("save", "cannot save: %v", err)
					}
					model[step%2] = o
					for x, s := range []kfSlot{a, b} {
						if err := kfExpect(w, s, model[x], keys, secrets[:2]); err != nil {
							return err
						}
					}
				}
				w.Outcome("slots", a, b)
				return nil
			})
		}
	}
	// c. histories
	slots := []kfSlot{{util.CLS_NODE, kfID("a")}, {util.CLS_CLUSTER, kfID("a")}, {util.CLS_NODE, kfID("ab")}}
	type kop struct{ slot, key, secret int } // secret < 0: one of a length that is refused
	var ops []kop
	for s := range slots {
		for k := 0; k < 3; k++ {
			for _, sec := range []int{0, 2, 3} {
				ops = append(ops, kop{s, k, sec})
			}
		}
		ops = append(ops, kop{s, 1, -1})
	}
	depth := 2
	if !w.Quick() {
		depth = 3
	}
	refused := [][]byte{nil, pattern(1, 1, 1), pattern(15, 1, 1), pattern(17, 1, 1), pattern(31, 1, 1), pattern(33, 1, 1)}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for c := 0; c < total; c++ {
		c := c
		var seq []kop
		for x, i := c, 0; i < depth; i++ {
			seq = append(seq, ops[x%len(ops)])
			x /= len(ops)
		}
		w.Case("history", func() string { return fmt.Sprintf("%v", seq) }, func() error {
			for _, s := range slots {
				kfClean(s.cls, s.id)
			}
			defer func() {
				for _, s := range slots {
					kfClean(s.cls, s.id)
				}
			}()
			model := []kfContent{{-1, 0}, {-1, 0}, {-1, 0}}
			for i, o := range seq {
				if o.secret < 0 {
					r := refused[(c+i)%len(refused)]
					if err := kfSave(slots[o.slot], keys[o.key], r); err == nil {
						// a secret the cipher cannot use as it is: then it must read back under exactly this one
						k, e := util.LCLoadPrivKey(slots[o.slot].cls, slots[o.slot].id, append([]byte{}, r...))
						if e != nil || !samePriv(k, keys[o.key]) {
							return bad("save-secret", "saving under a secret of %d bytes succeeds but reading gives %v, %v", len(r), k, e)
						}
						return nil
					}
				} else {
					if err := kfSave(slots[o.slot], keys[o.key], secrets[o.secret]); err != nil {
						return bad("save", "step %d: cannot save: %v", i, err)
					}
					model[o.slot] = kfContent{o.key, o.secret}
				}
				for j, s := range slots {
					if err := kfExpect(w, s, model[j], keys, secrets); err != nil {
						return err
					}
				}
			}
			w.Outcome("h", fmt.Sprint(model))
			return nil
		})
	}
	// d. wrong secrets
	for si := range secrets {
		si := si
		var wrong [][]byte
		s := secrets[si]
		for bit := 0; bit < 8*len(s); bit++ {
			x := append([]byte{}, s...)
			x[bit/8] ^= 1 << uint(bit%8)
			wrong = append(wrong, x)
		}
		for n := 0; n <= 34; n++ {
			if n < len(s) {
				wrong = append(wrong, s[:n:n], s[len(s)-n:])
			} else if n > len(s) {
				wrong = append(wrong, append(append([]byte{}, s...), make([]byte, n-len(s))...), append(make([]byte, n-len(s)), s...))
			}
		}
		wrong = append(wrong, nil)
		for wi := range wrong {
			wi := wi
			w.Case("wrong-secret", func() string { return fmt.Sprintf("saved %x read %x", s, wrong[wi]) }, func() error {
				sl := kfSlot{util.CLS_SERVICE, kfID("w")}
				kfClean(sl.cls, sl.id)
				defer kfClean(sl.cls, sl.id)
				if err := kfSave(sl, keys[0], s); err != nil {
					return bad("save", "cannot save: %v", err)
				}
				if k, err := util.LCLoadPrivKey(sl.cls, sl.id, append([]byte{}, wrong[wi]...)); err == nil {
					return bad("wrong-secret", "private key %x is read with another secret", k.D)
				}
				if k, err := util.LCLoadPrivKey(sl.cls, sl.id, append([]byte{}, s...)); err != nil || !samePriv(k, keys[0]) {
					return bad("load-private", "after a failed attempt the key cannot be read: %v", err)
				}
				w.transitions += 3
				w.Outcome("ws", wrong[wi])
				return nil
			})
		}
	}
	// e. corruptions
	kfCorrupt(w, keys, secrets)
	// f. faults
	kfFaults(w, keys, secrets)
}

// flipReader gives a fixed pattern with a byte range flipped
type flipReader struct {
	pat  []byte
	n    int
	pos  int
	upTo bool
	flip byte
}

func (r *flipReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.pat[r.n%len(r.pat)]
		if (r.n >= r.pos) != r.upTo || r.upTo && r.n == r.pos {
			p[i] ^= r.flip
		}
		r.n++
	}
	return len(p), nil
}

type failReader struct{}

func (failReader) Read([]byte) (int, error) { return 0, errors.New("no random bytes") }

type oneByteReader struct{ r *fixedReader }

func (o *oneByteReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// kfCorrupt: every change of a saved file from the enumerated set must give an
// error, or the key that was saved.
func kfCorrupt(w *W, keys []*ecdsa.PrivateKey, secrets [][]byte) {
	type variant struct {
		name string
		make func(b []byte) []byte
	}
	for ki := 0; ki < 3; ki++ {
		for fi := 0; fi < 2; fi++ {
			ki, fi := ki, fi
			s := kfSlot{util.CLS_NODE, kfID(fmt.Sprintf("c%d", ki))}
			other := kfSlot{util.CLS_NODE, kfID(fmt.Sprintf("co%d", ki))}
			var files map[string][]byte
			var paths []string
			var otherB []byte
			prepare := func() error {
				kfClean(s.cls, s.id)
				if err := kfSave(s, keys[ki], secrets[0]); err != nil {
					return bad("save", "cannot save: %v", err)
				}
				if err := kfSave(other, keys[3], secrets[0]); err != nil {
					return bad("save", "cannot save: %v", err)
				}
				files = kfFiles(s.cls, s.id)
				paths = kfPaths(files)
				of := kfFiles(other.cls, other.id)
				if op := kfPaths(of); fi < len(op) {
					otherB = of[op[fi]]
				}
				return nil
			}
			if err := prepare(); err != nil {
				w.Exec("corrupt", func() string { return fmt.Sprintf("key %d prepare", ki) }, func() error { return err })
				return
			}
			if fi >= len(paths) {
				continue
			}
			orig := files[paths[fi]]
			_ = otherB
			try := func(b []byte) error {
				return kfTryFile(w, s, paths[fi], b, keys[ki], secrets[0])
			}
			// truncations, extensions
			for n := 0; n < len(orig); n++ {
				n := n
				w.Case("truncate", func() string { return fmt.Sprintf("key %d file %d to %d", ki, fi, n) }, func() error {
					if err := try(orig[:n]); err != nil {
						return err
					}
					// the rest is still zeroed, or blank
					for _, c := range []byte{0, ' ', '0', '\n', 'F'} {
						if err := try(append(append([]byte{}, orig[:n]...), bytes.Repeat([]byte{c}, len(orig)-n)...)); err != nil {
							return err
						}
					}
					return try(orig[n:])
				})
			}
			for n := 0; n < 256; n++ {
				n := n
				w.Case("append", func() string { return fmt.Sprintf("key %d file %d byte %d", ki, fi, n) }, func() error {
					for k := 1; k <= 3; k++ {
						if err := try(append(append([]byte{}, orig...), bytes.Repeat([]byte{byte(n)}, k)...)); err != nil {
							return err
						}
					}
					return try(append([]byte{byte(n)}, orig...))
				})
			}
			w.Case("replace", func() string { return fmt.Sprintf("key %d file %d", ki, fi) }, func() error {
				if err := try(append(append([]byte{}, orig...), orig...)); err != nil {
					return err
				}
				for j := range paths {
					if j != fi {
						if err := try(files[paths[j]]); err != nil {
							return err
						}
					}
				}
				return nil
			})
			// every byte to every value
			for n := 0; n < len(orig); n++ {
				n := n
				w.Case("byte", func() string { return fmt.Sprintf("key %d file %d at %d", ki, fi, n) }, func() error {
					b := append([]byte{}, orig...)
					for v := 0; v < 256; v++ {
						b[n] = byte(v)
						if err := try(b); err != nil {
							return err
						}
					}
					b[n] = orig[n]
					// swapped with every later one, dropped, doubled
					for m := n + 1; m < len(orig); m++ {
						b[n], b[m] = b[m], b[n]
						if err := try(b); err != nil {
							return err
						}
						b[n], b[m] = b[m], b[n]
					}
					if err := try(append(append([]byte{}, b[:n]...), b[n+1:]...)); err != nil {
						return err
					}
					return try(append(append([]byte{}, b[:n]...), b[n:]...))
				})
			}
			raw, err := hex.DecodeString(strings.TrimSpace(string(orig)))
			if err != nil {
				w.Note("files_not_hexadecimal", 1)
				continue
			}
			enc := func(x []byte) []byte { return []byte(fmt.Sprintf("%X", x)) }
			bits := 8 * len(raw)
			// content cut, extended or shifted, with a checksum that is right for what is left
			if len(raw) > 4 {
				body := raw[:len(raw)-4]
				sealed := func(x []byte) []byte {
					var c [4]byte
					binary.BigEndian.PutUint32(c[:], crc32.ChecksumIEEE(x))
					return enc(append(append([]byte{}, x...), c[:]...))
				}
				for n := 0; n <= len(body); n++ {
					n := n
					w.Case("sealed", func() string { return fmt.Sprintf("key %d file %d to %d", ki, fi, n) }, func() error {
						for _, x := range [][]byte{body[:n], body[n:], append(append([]byte{}, body...), make([]byte, n+1)...), append(append([]byte{}, body...), body[:n]...), append(make([]byte, n+1), body...)} {
							if len(x) == len(body) {
								continue
							}
							if err := try(sealed(x)); err != nil {
								return err
							}
						}
						return nil
					})
				}
				// bursts of four bytes after which the checksum is right but for one of its bytes
				for at := 0; at+4 <= len(body); at++ {
					at := at
					w.Case("burst", func() string { return fmt.Sprintf("key %d file %d at %d", ki, fi, at) }, func() error {
						base := crc32.ChecksumIEEE(body)
						solve := crcSolver(len(body)-at-4, len(body))
						for b := 0; b < 4; b++ {
							for v := uint32(1); v < 256; v++ {
								if w.Quick() && v&(v-1) != 0 && v != 255 {
									continue
								}
								d := solve(v << (8 * uint(b)))
								x := append([]byte{}, raw...)
								for i := 0; i < 4; i++ {
									x[at+i] ^= byte(d >> (8 * uint(i)))
								}
								if crc32.ChecksumIEEE(x[:len(body)]) != base^v<<(8*uint(b)) {
									return fmt.Errorf("the burst is not the one wanted")
								}
								if err := try(enc(x)); err != nil {
									return err
								}
							}
						}
						return nil
					})
				}
			}
			for i := 0; i < bits; i++ {
				i := i
				if w.Quick() && ki != 0 {
					continue
				}
				w.Case("bits", func() string { return fmt.Sprintf("key %d file %d bit %d", ki, fi, i) }, func() error {
					x := append([]byte{}, raw...)
					x[i/8] ^= 1 << uint(i%8)
					if err := try(enc(x)); err != nil {
						return err
					}
					// the same with the checksum made right again, for the encrypted file
					if len(x) > 40 {
						y := append([]byte{}, x...)
						c := crc32.ChecksumIEEE(y[:len(y)-4])
						y[len(y)-4], y[len(y)-3], y[len(y)-2], y[len(y)-1] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
						if err := try(enc(y)); err != nil {
							return err
						}
					}
					for j := i + 1; j < bits; j++ {
						if w.Quick() && j > i+40 && (i+j)%7 != 0 {
							continue
						}
						x[j/8] ^= 1 << uint(j%8)
						if err := try(enc(x)); err != nil {
							return err
						}
						x[j/8] ^= 1 << uint(j%8)
					}
					return nil
				})
			}
			kfClean(other.cls, other.id)
		}
	}
}

// crcSolver gives, for a change of the CRC-32 of n bytes, the change of four
// successive bytes (little end first), followed by after bytes, that causes it.
func crcSolver(after, n int) func(uint32) uint32 {
	zero := crc32.ChecksumIEEE(make([]byte, n))
	type row struct{ out, in uint32 }
	var rows []row
	for bit := uint(0); bit < 32; bit++ {
		m := make([]byte, n)
		m[n-after-4+int(bit/8)] = 1 << (bit % 8)
		r := row{crc32.ChecksumIEEE(m) ^ zero, 1 << bit}
		for _, q := range rows {
			if r.out^q.out < r.out {
				r.out, r.in = r.out^q.out, r.in^q.in
			}
		}
		if r.out != 0 {
			rows = append(rows, r)
			sort.Slice(rows, func(i, j int) bool { return rows[i].out > rows[j].out })
		}
	}
	return func(want uint32) (in uint32) {
		for _, q := range rows {
			if want^q.out < want {
				want, in = want^q.out, in^q.in
			}
		}
		return
	}
}

// kfTryFile reads the key while one of its files has another content.
func kfTryFile(w *W, s kfSlot, path string, b []byte, k *ecdsa.PrivateKey, secret []byte) error {
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, b, 0600); err != nil {
		return err
	}
	pub, err := util.LCLoadPubKey(s.cls, s.id)
	w.transitions++
	if err == nil && !samePublic(pub, &k.PublicKey) {
		return bad("corrupt-public", "file %s holds %q: public key %x is read, saved was %x", filepath.Base(path), trunc(string(b), 200), pub.X, k.X)
	}
	e1 := err == nil
	priv, err := util.LCLoadPrivKey(s.cls, s.id, append([]byte{}, secret...))
	w.transitions++
	if err == nil && !samePriv(priv, k) {
		return bad("corrupt-private", "file %s holds %q: private key %x is read, saved was %x", filepath.Base(path), trunc(string(b), 200), priv.D, k.D)
	}
	if len(w.distinct) < 4000 {
		w.Outcome("c", filepath.Base(path), len(b), e1, err == nil, fmt.Sprint(err))
	}
	return nil
}

func kfFaults(w *W, keys []*ecdsa.PrivateKey, secrets [][]byte) {
	cwd, _ := os.Getwd()
	// scenarios: what is there before
	type scen struct {
		name       string
		old        int // key index, -1: nothing
		oldSec, nw int
		newSec     int
	}
	scens := []scen{{"fresh", -1, 0, 0, 0}, {"new-secret", 0, 0, 0, 3}, {"other-key", 0, 0, 2, 0}, {"other-both", 3, 2, 1, 1}}
	slot := func(w *W) kfSlot { return kfSlot{util.CLS_CLUSTER, kfID("f")} }
	before := func(sc scen) error {
		s := slot(w)
		kfClean(s.cls, s.id)
		if sc.old >= 0 {
			if err := kfSave(s, keys[sc.old], secrets[sc.oldSec]); err != nil {
				return bad("save", "cannot save: %v", err)
			}
		}
		return nil
	}
	verify := func(sc scen, saved bool) (string, error) {
		var old *ecdsa.PrivateKey
		var os_ []byte
		if sc.old >= 0 {
			old, os_ = keys[sc.old], secrets[sc.oldSec]
		}
		out, err := kfAfterFault(w, slot(w), old, os_, keys[sc.nw], secrets[sc.newSec], saved)
		if err != nil {
			return out, err
		}
		// saving again works
		if err := kfSave(slot(w), keys[sc.nw], secrets[sc.newSec]); err != nil {
			return out, bad("fault-after", "after the fault the key cannot be saved: %v", err)
		}
		return out, kfExpect(w, slot(w), kfContent{sc.nw, sc.newSec}, keys, secrets)
	}
	// 1. the space runs out after every number of bytes: the write fails, or the process dies there
	max := 0
	for _, sc := range scens {
		if before(sc) == nil && kfSave(slot(w), keys[sc.nw], secrets[sc.newSec]) == nil {
			for _, b := range kfFiles(slot(w).cls, slot(w).id) {
				if len(b) > max {
					max = len(b)
				}
			}
		}
	}
	for _, sc := range scens {
		for k := 0; k <= max; k++ {
			for _, mode := range []string{"ignore", "die"} {
				sc, k, mode := sc, k, mode
				w.Case("cut", func() string { return fmt.Sprintf("%s %s after %d bytes", sc.name, mode, k) }, func() error {
					if err := before(sc); err != nil {
						return err
					}
					defer kfClean(slot(w).cls, slot(w).id)
					r, _ := keyop(cwd, "save", slot(w), keys[sc.nw], secrets[sc.newSec], k, mode, nil)
					if r != nil && strings.HasPrefix(r.Err, "panic") {
						return bad("fault-panic", "saving with %d bytes of space: %s", k, r.Err)
					}
					out, err := verify(sc, r != nil && r.Err == "")
					w.Outcome("cut", sc.name, mode, out, r != nil)
					return err
				})
			}
		}
	}
	// 2. each file of the new state cut at every length, the others old or new
	for _, sc := range scens {
		sc := sc
		if before(sc) != nil {
			continue
		}
		oldF := kfFiles(slot(w).cls, slot(w).id)
		if kfSave(slot(w), keys[sc.nw], secrets[sc.newSec]) != nil {
			continue
		}
		newF := kfFiles(slot(w).cls, slot(w).id)
		paths := kfPaths(newF)
		if len(paths) > 4 {
			paths = paths[:4]
		}
		for fi, p := range paths {
			for n := 0; n <= len(newF[p]); n++ {
				for others := 0; others < 1<<uint(len(paths)-1); others++ {
					fi, p, n, others := fi, p, n, others
					w.Case("torn", func() string { return fmt.Sprintf("%s file %d at %d others %b", sc.name, fi, n, others) }, func() error {
						kfClean(slot(w).cls, slot(w).id)
						defer kfClean(slot(w).cls, slot(w).id)
						os.MkdirAll(filepath.Dir(p), 0755)
						bit := 0
						for fj, q := range paths {
							src := oldF
							if fj == fi {
								os.WriteFile(q, newF[q][:n], 0600)
								continue
							}
							if others>>uint(bit)&1 == 1 {
								src = newF
							}
							bit++
							if b, ok := src[q]; ok {
								os.WriteFile(q, b, 0600)
							}
						}
						out, err := verify(sc, false)
						w.Outcome("torn", sc.name, fi, out)
						return err
					})
				}
			}
		}
	}
	kfClean(slot(w).cls, slot(w).id)
	// 3. every system call of a save or a load fails, or the process is killed in front of it
	if _, err := exec.LookPath("strace"); err != nil {
		w.Note("strace_missing", 1)
		w.exhaustive = false
		return
	}
	errnos := []string{"EIO", "ENOSPC", "EACCES", "EINTR", "ENOENT", "EMFILE"}
	for _, op := range []string{"save", "loadpub", "loadpriv"} {
		for si, sc := range scens {
			if op != "save" && si > 0 {
				break
			}
			op, sc := op, sc
			setup := func() error {
				if op == "save" {
					return before(sc)
				}
				kfClean(slot(w).cls, slot(w).id)
				return kfSave(slot(w), keys[sc.nw], secrets[sc.newSec])
			}
			if setup() != nil {
				continue
			}
			_, tr := keyop(cwd, op, slot(w), keys[sc.nw], secrets[sc.newSec], -1, "-", []string{"-e", kfTraced})
			pts, ok := between(tr)
			if !ok {
				w.Note("strace_unusable", 1)
				w.exhaustive = false
				continue
			}
			w.Sample("%s %s: %d system calls", op, sc.name, len(pts))
			for pi, pt := range pts {
				faults := append([]string{}, errnos...)
				if op == "save" {
					faults = append(faults, "KILL")
				}
				if strings.HasPrefix(pt.name, "epoll") || strings.HasPrefix(pt.name, "eventfd") || pt.name == "fcntl" {
					continue // the run time's own event polling
				}
				for fi, f := range faults {
					pi, pt, f := pi, pt, f
					w.CaseN("syscall", pi*7+fi, func() string { return fmt.Sprintf("%s %s call %d %s#%d %s", op, sc.name, pi, pt.name, pt.nth, f) }, func() error {
						if err := setup(); err != nil {
							return err
						}
						defer kfClean(slot(w).cls, slot(w).id)
						inj := fmt.Sprintf("inject=%s:error=%s:when=%d", pt.name, f, pt.nth)
						if f == "KILL" {
							inj = fmt.Sprintf("inject=%s:signal=KILL:when=%d", pt.name, pt.nth)
						}
						r, tr := keyop(cwd, op, slot(w), keys[sc.nw], secrets[sc.newSec], -1, "-", []string{"-e", kfTraced, "-e", inj})
						if f != "KILL" && !injectedInside(tr) {
							w.Note("faults_missed", 1)
							w.exhaustive = false
							return nil
						}
						if f == "KILL" && (r != nil || !strings.Contains(tr, "VF-MARK-BEGIN")) {
							w.Note("faults_missed", 1)
							w.exhaustive = false
							return nil
						}
						w.Note("system_call_faults", 1)
						if r != nil && strings.HasPrefix(r.Err, "panic") {
							return bad("fault-panic", "%s with %s at %s: %s", op, f, pt.line, r.Err)
						}
						if f != "KILL" && r == nil {
							return bad("fault-death", "%s dies with %s at %s", op, f, pt.line)
						}
						if op == "save" {
							out, err := verify(sc, r != nil && r.Err == "")
							w.Outcome("sys", sc.name, f, out, r != nil)
							return err
						}
						k := keys[sc.nw]
						if r.Err == "" && (r.X != fmt.Sprintf("%x", k.X) || r.Y != fmt.Sprintf("%x", k.Y) || op == "loadpriv" && r.D != fmt.Sprintf("%x", k.D)) {
							return bad("fault-load", "%s with %s at %s gives another key: %v", op, f, pt.line, r)
						}
						w.Outcome("sys", op, f, pi, r.Err == "")
						return kfExpect(w, slot(w), kfContent{sc.nw, sc.newSec}, keys, secrets)
					})
				}
			}
			kfClean(slot(w).cls, slot(w).id)
		}
	}
}
