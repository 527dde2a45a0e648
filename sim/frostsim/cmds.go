package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

const realCmd = "cmd/keygen and cmd/signer as real processes, with all packages they use and the real file system below a fault layer in the system calls"
const stubCmd = "randomness and map iteration order (seeded), system calls on files (fault plan decided by the seed)"

func init() {
	register(&Check{ID: "C23", Scenario: scenC23, NoBubble: true, Quick: 5000, Thorough: 40000, Real: realCmd, Stub: stubCmd,
		Rule: "one run executes the keygen command once under a plan of open, write, close and standard-output faults and crashes in a scratch directory with a random prior state; the key file is parsed and used independently"})
	register(&Check{ID: "C24", Scenario: scenC24, NoBubble: true, Quick: 10000, Thorough: 80000, Real: realCmd, Stub: stubCmd,
		Rule: "one run executes the signer command once on an intact, torn, damaged or missing key file, possibly under read faults"})
}

// proc is the result of one process.
type proc struct {
	out, err []byte
	code     int
	signal   string
	hang     bool
	ops      []string
}

func scratch(r *Run) (string, func()) {
	dir, err := os.MkdirTemp("", "frostsim-")
	if err != nil {
		r.Discard("no scratch directory: %v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

// runCmd executes a command of the repository in dir under a fault plan.
func runCmd(r *Run, name, dir, plan string, seed uint64, args ...string) proc {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(verifDir(), "build", "bin", "cmd-"+name), args...)
	c.Dir = dir
	c.Env = []string{"FROSTSIM_PLAN=" + plan, fmt.Sprintf("FROSTSIM_SEED=%d", seed), "FROSTSIM_LOG=3", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin"}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	// the name of the scratch directory differs between executions
	hide := func(b []byte) []byte { return bytes.ReplaceAll(b, []byte(dir), []byte("SCRATCH")) }
	pr, pw, err := os.Pipe()
	if err != nil {
		r.Discard("no pipe: %v", err)
	}
	c.ExtraFiles = []*os.File{pw}
	if err := c.Start(); err != nil {
		pr.Close()
		pw.Close()
		r.Discard("cannot start %s: %v", name, err)
	}
	pw.Close()
	log, _ := io.ReadAll(pr)
	pr.Close()
	err = c.Wait()
	p := proc{out: hide(o.Bytes()), err: hide(e.Bytes()), hang: ctx.Err() != nil}
	for _, l := range strings.Split(strings.TrimSpace(string(log)), "\n") {
		if l != "" && !strings.HasPrefix(l, "stdout") || strings.HasSuffix(l, "fault") {
			p.ops = append(p.ops, l)
		}
	}
	if c.ProcessState != nil {
		p.code = c.ProcessState.ExitCode()
		if p.code == -1 {
			p.signal = c.ProcessState.String()
		}
	}
	r.Event("%s %s plan %q: exit %d %s, %v", name, string(hide([]byte(showArgs(args)))), plan, p.code, p.signal, p.ops)
	r.Event("output %s", short(p.out))
	h := 0
	for _, l := range p.ops {
		for _, c := range []byte(l) {
			h = h*31 + int(c)
		}
		if strings.HasSuffix(l, "fault") {
			r.Fault("syscall:" + l[:strings.IndexByte(l, ':')])
		}
	}
	r.Sched(int(name[0]), h, p.code)
	return p
}

func showArgs(a []string) string {
	s := fmt.Sprintf("%q", a)
	if len(s) > 200 {
		return s[:200] + ".."
	}
	return s
}

// crashed reports whether the process died of a bug rather than by the plan.
func (p proc) crashed() string {
	for _, m := range []string{"panic:", "fatal error:", "unexpected fault address", "goroutine 1 ["} {
		if bytes.Contains(p.err, []byte(m)) {
			l := string(p.err)
			if i := strings.Index(l, "\n"); i > 0 {
				l = l[:i]
			}
			return l + trimPanic(string(p.err))
		}
	}
	return ""
}

var frameRE = regexp.MustCompile(`(?m)^((?:main|github\.com/taurusgroup)[^\n(]*\([^\n]*)$`)

func trimPanic(s string) string {
	var f []string
	for _, m := range frameRE.FindAllStringSubmatch(s, 3) {
		x := m[1]
		if i := strings.LastIndexByte(x, '('); i > 0 {
			x = x[:i]
		}
		f = append(f, x)
	}
	return " [" + strings.Join(f, " < ") + "]"
}

// ---- an independent reader of the key file

type rawKeyFile struct {
	Secrets map[string]struct {
		ID     int    `json:"id"`
		Secret []byte `json:"secret"`
	}
	Shares struct {
		T        *int              `json:"t"`
		GroupKey []byte            `json:"groupkey"`
		Shares   map[string][]byte `json:"shares"`
	}
}

// readKeyFile parses a complete key file of n parties; anything else is an error.
func readKeyFile(b []byte, n, t int) (*ref.Key, error) {
	var f rawKeyFile
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	if f.Shares.T == nil || *f.Shares.T != t {
		return nil, fmt.Errorf("threshold is not %d", t)
	}
	if len(f.Secrets) != n || len(f.Shares.Shares) != n {
		return nil, fmt.Errorf("%d secrets and %d public shares for %d parties", len(f.Secrets), len(f.Shares.Shares), n)
	}
	k := &ref.Key{T: t, Secret: map[uint16]*ref.Scalar{}, Pub: map[uint16]*ref.Pt{}}
	for i := 1; i <= n; i++ {
		id := uint16(i)
		s, ok := f.Secrets[fmt.Sprint(i)]
		if !ok || s.ID != i {
			return nil, fmt.Errorf("secret of %d is missing or mislabelled", i)
		}
		x, err := ref.SDecode(s.Secret)
		if err != nil {
			return nil, fmt.Errorf("secret of %d: %v", i, err)
		}
		p, err := ref.Dec(f.Shares.Shares[fmt.Sprint(i)])
		if err != nil {
			return nil, fmt.Errorf("public share of %d: %v", i, err)
		}
		if !ref.Base(x).Eq(p) {
			return nil, fmt.Errorf("secret and public share of %d do not match", i)
		}
		k.IDs = append(k.IDs, id)
		k.Secret[id], k.Pub[id] = x, p
	}
	g, err := ref.Dec(f.Shares.GroupKey)
	if err != nil {
		return nil, fmt.Errorf("group key: %v", err)
	}
	k.Group = g
	if !ref.Consistent(k.IDs, k.Pub, t, g) {
		return nil, fmt.Errorf("the shares do not lie on a polynomial of degree %d with the group key at zero", t)
	}
	if !ref.Base(ref.InterpolateScalars(k.IDs[:t+1], k.Secret, ref.SInt(0))).Eq(g) {
		return nil, fmt.Errorf("the secrets are not those of the group key")
	}
	return k, nil
}

var (
	sigRE = regexp.MustCompile(`(?s)Success: signature is\s+r: ([0-9a-fA-F]*)\s+s: ([0-9a-fA-F]*)`)
	keyRE = regexp.MustCompile(`Group Key:\s+([0-9a-fA-F]+)`)
	outRE = regexp.MustCompile(`Success: output written to (.*)\n`)
	prtRE = regexp.MustCompile(`Party (\d+):\s+secret: ([0-9a-fA-F]+)\s+public: ([0-9a-fA-F]+)`)
)

// signature parses and verifies what the signer printed. ok is false when it announced no success.
func (p proc) signature(keys []*ref.Pt, msg []byte) (announced bool, err error) {
	if !bytes.Contains(p.out, []byte("Success")) {
		return false, nil
	}
	m := sigRE.FindSubmatch(p.out)
	if m == nil {
		return true, fmt.Errorf("no signature follows")
	}
	rb, _ := hex.DecodeString(string(m[1]))
	sb, _ := hex.DecodeString(string(m[2]))
	s, err := ref.SDecode(sb)
	if err != nil {
		return true, fmt.Errorf("s: %v", err)
	}
	var cands []*ref.Pt
	if R, err := ref.Dec(rb); err == nil {
		cands = append(cands, R)
	}
	for _, R := range cands {
		for _, k := range keys {
			if ref.VerifySig(k, msg, R, s) {
				return true, nil
			}
		}
	}
	return true, fmt.Errorf("the signature r=%x s=%x is not valid", rb, sb)
}

// planFor draws a fault plan over the operations op 1..max.
func genPlan(r *Run, size int, ops []string) string {
	var fs []string
	for k := 1 + r.Pick(6, 2, 1); k > 0; k-- {
		op := ops[r.Choose(len(ops))]
		n := 1
		if op == "stdout" {
			n = 1 + r.Choose(12)
		} else if r.Chance(1, 3) {
			n = 1 + r.Choose(3)
		}
		pos := r.Choose(size + 1)
		switch r.Choose(4) {
		case 1:
			pos = []int{0, 1, size - 1, size, 4096, 512}[r.Choose(6)]
		}
		if pos < 0 {
			pos = 0
		}
		errno := []int{28, 5, 122, 27, 13, 30, 24, 12, 4, 11, 9}[r.Choose(11)] // ENOSPC EIO EDQUOT EFBIG EACCES EROFS EMFILE ENOMEM EINTR EAGAIN EBADF
		act := fmt.Sprint(errno)
		switch op {
		case "write", "stdout", "read":
			if (errno == 11 || errno == 4) && op != "read" {
				act = "5"
			}
			switch r.Choose(4) {
			case 1:
				act = fmt.Sprintf("short:%d", pos)
			case 2:
				if op != "read" {
					act = fmt.Sprintf("torn:%d", pos)
				}
			case 3:
				if op != "read" && r.Chance(1, 2) {
					act = "crash"
				}
			}
			if op == "read" && strings.HasPrefix(act, "short:0") {
				act = "short:1"
			}
		case "open":
			if r.Chance(1, 4) {
				act = "crash"
			}
		default:
			switch r.Choose(3) {
			case 1:
				act = "crash"
			case 2:
				act = fmt.Sprintf("lose:%d", pos)
			}
		}
		fs = append(fs, fmt.Sprintf("%s:%d:%s", op, n, act))
		if op == "write" && r.Chance(1, 2) && strings.Contains(act, "short") {
			// the rest does not fit either
			fs = append(fs, fmt.Sprintf("write:%d:28", n+1))
		}
	}
	return strings.Join(fs, ",")
}

func scenC23(r *Run) {
	dir, clean := scratch(r)
	defer clean()
	n := 2 + r.Choose(4)
	if r.Chance(1, 8) {
		n = 6 + r.Choose(10)
	}
	t := 1 + r.Choose(n-1)
	if r.Chance(1, 60) {
		n = 17 + r.Choose(29)
		t = 1 + r.Choose(5)
	} else if r.Chance(1, 800) {
		n = 46 + r.Choose(54)
		t = 1 + r.Choose(2)
	}
	args := []string{fmt.Sprint(t), fmt.Sprint(n)}
	valid := true
	if r.Chance(1, 12) {
		valid = false
		args = [][]string{{"0", "3"}, {"3", "3"}, {"4", "3"}, {"x", "3"}, {"1", ""}, {"1", "0"}, {"-1", "3"}, {"1", "101"}, {"1"}, {}, {"1", "2", "3"}, {"65536", "3"}, {"0", "0"}, {"1", "1"}, {"-1", "0"}, {"-65536", "-65533"}, {"-2", "-1"}, {"-65535", "2"}, {"1", "65539"}, {"1", "-65533"}, {"4294967297", "3"}}[r.Choose(21)]
	}
	file := filepath.Join(dir, "keygenout.json")
	prior := r.Pick(5, 2, 2, 1, 1, 1)
	full := false
	switch prior {
	case 1: // an older, longer file
		os.WriteFile(file, bytes.Repeat([]byte("{\"old\": 1}\n"), 20+r.Choose(2000)), 0o644)
	case 2: // an older key file
		k := DealKey(r, "older", []uint16{1, 2, 3}, 1)
		w := wallet{Secrets: map[party.ID]*shareT{}, Shares: k.Public}
		for id, s := range k.Shares {
			w.Secrets[party.ID(id)] = s
		}
		os.WriteFile(file, marshal(r, "a key file", w), 0o644)
	case 3: // in the way
		os.Mkdir(file, 0o755)
		full = true
	case 4: // a full device
		os.Symlink("/dev/full", file)
		full = true
	case 5: // nowhere
		os.Symlink(filepath.Join(dir, "missing", "dir"), file)
		full = true
	}
	plan := ""
	size := n*320 + 100
	if r.Chance(4, 5) {
		plan = genPlan(r, size, []string{"open", "write", "write", "write", "write", "close", "close", "fsync", "rename", "stdout"})
	}
	p := runCmd(r, "keygen", dir, plan, r.Seed, args...)
	if p.hang {
		r.Fail("hang", "the keygen command (%s, plan %q) does not end", showArgs(args), plan)
	}
	hit := false
	for _, o := range p.ops {
		hit = hit || strings.HasSuffix(o, "fault")
	}
	if !bytes.Contains(p.out, []byte("Success")) {
		if valid && !hit && !full {
			r.Fail("no-success", "nothing failed but the keygen command (%s) announces no success: %s %s", showArgs(args), tail(string(p.out), 200), tail(string(p.err), 300))
		}
		if c := p.crashed(); c != "" && !valid {
			r.Fail("crash", "the keygen command crashes on the arguments %s: %s", showArgs(args), c)
		}
		r.Note("no-success")
		r.Sample = fmt.Sprintf("keygen %v plan %q: no success announced", args, plan)
		return
	}
	if !valid {
		r.Fail("announced", "the keygen command announces success for invalid arguments %s", showArgs(args))
	}
	if hit && !strings.HasSuffix(string(p.out), "\n") {
		// the announcement itself was cut off
		if m := outRE.FindSubmatch(append(append([]byte(nil), p.out...), '\n')); m == nil || strings.TrimSpace(string(m[1])) != "keygenout.json" {
			r.Note("announcement-cut")
			return
		}
	}
	name := "keygenout.json"
	if m := outRE.FindSubmatch(append(append([]byte(nil), p.out...), '\n')); m != nil {
		name = strings.TrimSpace(string(m[1]))
	}
	name = strings.ReplaceAll(name, "SCRATCH", dir)
	if !filepath.IsAbs(name) {
		name = filepath.Join(dir, name)
	}
	data, err := os.ReadFile(name)
	if err != nil || len(data) > 10<<20 {
		r.Fail("announced", "the keygen command (%s, plan %q) announces success but its output cannot be read: %v", showArgs(args), plan, err)
	}
	k, err := readKeyFile(data, n, t)
	if err != nil {
		r.Fail("announced", "the keygen command (%s, plan %q) announces success but its output of %d bytes is not a complete key: %v", showArgs(args), plan, len(data), err)
	}
	if km := keyRE.FindSubmatch(p.out); km != nil {
		g, err := hex.DecodeString(string(km[1]))
		if err != nil || !bytes.Equal(g, k.Group.Ed()) {
			r.Fail("group-key", "the keygen command announces the group key %s but stores the secrets of %x", km[1], k.Group.Ed())
		}
	} else if !hit {
		r.Fail("group-key", "the keygen command announces success without a group key")
	}
	if !hit {
		seen := 0
		for _, pm := range prtRE.FindAllSubmatch(p.out, -1) {
			var id uint16
			fmt.Sscan(string(pm[1]), &id)
			s, _ := hex.DecodeString(string(pm[2]))
			pb, _ := hex.DecodeString(string(pm[3]))
			if k.Secret[id] == nil || !bytes.Equal(s, k.Secret[id].Bytes()) || !bytes.Equal(pb, k.Pub[id].Enc()) {
				r.Fail("printed", "what the keygen command prints for party %d is not what it stores", id)
			}
			seen++
		}
		r.Note(fmt.Sprintf("printed-parties:%v", seen == n))
	}
	// the file signs with the announced key
	msg := genArg(r)
	ps := runCmd(r, "signer", dir, "", r.Seed+1, rel(dir, name), string(msg))
	if ok, err := ps.signature([]*ref.Pt{k.Group}, msg); !ok || err != nil {
		r.Fail("unusable", "the stored key (%s, plan %q) does not sign: %v %s %s", showArgs(args), plan, err, tail(string(ps.out), 200), tail(string(ps.err), 200))
	}
	r.Sample = fmt.Sprintf("keygen %v plan %q: success, complete file of %d bytes, signs", args, plan, len(data))
}

func genArg(r *Run) []byte {
	m := genMessage(r)
	if len(m) > 100000 {
		m = m[:100000]
	}
	return bytes.ReplaceAll(m, []byte{0}, []byte{1})
}

func scenC24(r *Run) {
	dir, clean := scratch(r)
	defer clean()
	n := 2 + r.Choose(5)
	if r.Chance(1, 12) {
		n = 7 + r.Choose(12)
	}
	if r.Chance(1, 200) {
		n = 40 + r.Choose(60)
	}
	t := genT(r, n)
	seq := func(n int) (l []uint16) {
		for i := 1; i <= n; i++ {
			l = append(l, uint16(i))
		}
		return
	}
	file := func(tag string, n, t int) (*SKey, []byte) {
		k := DealKey(r, tag, seq(n), t)
		w := wallet{Secrets: map[party.ID]*shareT{}, Shares: k.Public}
		for id, s := range k.Shares {
			w.Secrets[party.ID(id)] = s
		}
		b := marshal(r, "a key file", w)
		if !r.Chance(1, 4) {
			var o bytes.Buffer
			json.Indent(&o, b, "", " ")
			b = o.Bytes()
		}
		return k, b
	}
	k, good := file("", n, t)
	keys := []*ref.Pt{k.Group}
	b, how, plan := good, "intact", ""
	path := filepath.Join(dir, "keys.json")
	place := func() { os.WriteFile(path, b, 0o600) }
	intact := true
	switch r.Pick(3, 6, 12, 3, 2, 3) {
	case 0:
	case 1: // torn while it replaced an older file
		n2 := 2 + r.Choose(6)
		older, old := file("older", n2, genT(r, n2))
		b, how = crashWrite(r, old, good)
		if r.Chance(1, 4) {
			b, how = crashWrite(r, nil, good)
		}
		keys = append(keys, older.Group)
		r.Fault("crash-while-writing")
		intact = bytes.Equal(b, good) || bytes.Equal(b, old)
	case 2:
		b, how = damage(r, good)
		if r.Chance(1, 3) {
			var h string
			b, h = damage(r, b)
			how += ", " + h
		}
		r.Fault("damaged-file")
		intact = bytes.Equal(b, good)
	case 3: // well formed, but something is missing or of another kind
		b, how = mutateJSON(r, good)
		r.Fault("structurally-damaged-file")
		intact = false
	case 4: // not readable
		intact = false
		switch r.Choose(4) {
		case 0:
			how = "missing"
			place = func() {}
		case 1:
			how = "a directory"
			place = func() { os.Mkdir(path, 0o700) }
		case 2:
			how = "a dangling link"
			place = func() { os.Symlink(path+".no", path) }
		case 3:
			how = "an empty device"
			place = func() { os.Symlink("/dev/null", path) }
		}
	case 5:
		plan = genPlan(r, len(good), []string{"open", "read", "read", "read", "close"})
		how = "intact, read under faults"
	}
	place()
	msg := genArg(r)
	if r.Chance(1, 40) { // the arguments are not a file and a message
		args := [][]string{{}, {"keys.json"}, {string(msg)}, {"keys.json", string(msg), "x"}, {"", string(msg)}, {"keys.json", "keys.json", "1", "2"}}[r.Choose(6)]
		p := runCmd(r, "signer", dir, "", r.Seed, args...)
		if c := p.crashed(); c != "" || p.hang || p.signal != "" {
			r.Fail("crash", "the signer command crashes on the arguments %s: %s", showArgs(args), c)
		}
		if ok, _ := p.signature(keys, msg); ok {
			r.Fail("announced", "the signer command prints success on the arguments %s", showArgs(args))
		}
		r.Fault("bad-arguments")
		r.Note("bad-arguments")
		r.Sample = fmt.Sprintf("signer %s: no success announced", clip(showArgs(args), 200))
		return
	}
	p := runCmd(r, "signer", dir, plan, r.Seed, "keys.json", string(msg))
	hit := false
	for _, o := range p.ops {
		if strings.HasSuffix(o, "fault") {
			hit = true
		}
	}
	if p.hang {
		r.Fail("hang", "the signer command does not end on a key file that is %s: %s", how, short(b))
	}
	if c := p.crashed(); c != "" {
		r.Fail("crash", "the signer command crashes on a key file that is %s: %s: %s", how, c, clip(string(b), 600))
	}
	if p.signal != "" && !hit {
		r.Fail("crash", "the signer command dies (%s) on a key file that is %s", p.signal, how)
	}
	ok, err := p.signature(keys, msg)
	if ok && err != nil && !strings.Contains(plan, "crash") {
		r.Fail("wrong-signature", "the signer command prints success on a key file that is %s (plan %q): %v: %s", how, plan, err, clip(string(b), 600))
	}
	if !ok {
		if intact && !hit {
			r.Fail("no-signature", "the signer command does not sign with an intact key file (%d of %d, message of %d bytes): %s %s", t, n, len(msg), tail(string(p.out), 300), tail(string(p.err), 300))
		}
		if !strings.Contains(plan, "crash") {
			said := len(p.err) > 0 || p.code != 0
			for _, l := range strings.Split(string(p.out), "\n") {
				l = strings.TrimSpace(l)
				if l != "" && !strings.HasPrefix(l, "(t, n) =") {
					said = true
				}
			}
			if !said {
				r.Fail("silent", "the signer command neither signs nor reports a failure on a key file that is %s: %s", how, clip(string(b), 600))
			}
		}
	}
	r.Note(fmt.Sprintf("%s: success=%v", strings.SplitN(how, ":", 2)[0], ok))
	r.Sample = fmt.Sprintf("signer on a key file (%d of %d) that is %s, plan %q: success announced %v", t, n, how, plan, ok)
	_ = engine.Guard
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + ".."
	}
	return s
}

// mutateJSON changes the structure of a JSON text but keeps it well formed.
func mutateJSON(r *Run, b []byte) ([]byte, string) {
	var v map[string]any
	if json.Unmarshal(b, &v) != nil {
		return b, "intact"
	}
	how := ""
	var paths [][]string
	var walk func(p []string, x any)
	walk = func(p []string, x any) {
		if len(p) > 0 {
			paths = append(paths, append([]string(nil), p...))
		}
		if m, ok := x.(map[string]any); ok {
			for _, k := range sortedKeys(m) {
				walk(append(p, k), m[k])
			}
		}
	}
	for k := 1 + r.Choose(2); k > 0; k-- {
		paths = nil
		walk(nil, v)
		if len(paths) == 0 {
			break
		}
		p := paths[r.Choose(len(paths))]
		m := v
		for _, s := range p[:len(p)-1] {
			m = m[s].(map[string]any)
		}
		last := p[len(p)-1]
		switch r.Choose(6) {
		case 0:
			delete(m, last)
			how += fmt.Sprintf("without %v; ", p)
		case 1:
			m[last] = nil
			how += fmt.Sprintf("null at %v; ", p)
		case 2:
			m[last] = []any{map[string]any{}, []any{}, "", 0, -1, 65536, 65537, 1e30, true, "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "////////////////////////////////////////////", "AA=="}[r.Choose(12)]
			how += fmt.Sprintf("another value at %v; ", p)
		case 3: // renamed
			x := m[last]
			delete(m, last)
			m[[]string{"0", "1", "2", "7", "65535", "65536", "-1", "x", "", "01"}[r.Choose(10)]] = x
			how += fmt.Sprintf("%v renamed; ", p)
		case 4: // copied over another one
			q := paths[r.Choose(len(paths))]
			mq := v
			for _, s := range q[:len(q)-1] {
				mq = mq[s].(map[string]any)
			}
			m[last] = clone(mq[q[len(q)-1]])
			how += fmt.Sprintf("%v replaced by %v; ", p, q)
		case 5: // exchanged with another one
			q := paths[r.Choose(len(paths))]
			if len(q) != len(p) {
				continue
			}
			mq := v
			for _, s := range q[:len(q)-1] {
				mq = mq[s].(map[string]any)
			}
			lq := q[len(q)-1]
			m[last], mq[lq] = mq[lq], m[last]
			how += fmt.Sprintf("%v exchanged with %v; ", p, q)
		}
	}
	o, err := json.Marshal(v)
	if err != nil {
		return b, "intact"
	}
	if how == "" {
		how = "re-encoded"
	}
	return o, how
}

func clone(v any) any {
	b, _ := json.Marshal(v)
	var o any
	json.Unmarshal(b, &o)
	return o
}

func rel(dir, name string) string {
	if p, err := filepath.Rel(dir, name); err == nil {
		return p
	}
	return name
}
