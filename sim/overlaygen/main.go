// overlaygen writes the go build overlays the simulator is built with. Nothing in the repository or the toolchain is
// changed on disk: the overlays only replace files for one build.
//
//	overlaygen -repo /repo -out DIR
//
// DIR/sim.json (for the simulator): seeded map iteration order, goroutine ids and synctest bubbles exported from the
// standard library, and in the packages under test "sync" replaced by frostsim.local/sim/simsync and a yield point
// before every statement.
// DIR/cmd.json (for the two commands): seeded map order and randomness, and file operations routed through a fault plan.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "overlaygen: "+f+"\n", a...)
	os.Exit(3)
}

var outDir string

type overlay struct{ Replace map[string]string }

func (o *overlay) put(target, name, content string) {
	p := filepath.Join(outDir, name)
	if old, err := os.ReadFile(p); err != nil || string(old) != content {
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	o.Replace[target] = p
}

func (o *overlay) write(name string) {
	b, _ := json.MarshalIndent(o, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, name), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func replaceOnce(file, src, old, new string) string {
	if strings.Count(src, old) != 1 {
		fatal("%s: anchor %q found %d times, want 1 (unsupported Go toolchain)", file, old, strings.Count(src, old))
	}
	return strings.Replace(src, old, new, 1)
}

func read(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	return string(b)
}

const runtimeExtra = `package runtime

import "unsafe"

// Added by the simulator's build overlay.

var simMapSeed uint64 = 0x5851f42d4c957f2d

// SimSetMapSeed sets the value every map seed and map iteration start is derived from.
func SimSetMapSeed(s uint64) { simMapSeed, simDraws = s, 0 }

var simDraws uint64

// simStreamRand replaces rand for select and for math/rand.
//
//go:linkname simStreamRand
//go:norace
func simStreamRand() uint64 {
	simDraws++
	z := simMapSeed ^ simDraws*0xd1342543de82ef95
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimTimerArg returns the argument of the function that the time.Timer at t calls.
func SimTimerArg(t unsafe.Pointer) any { return (*timeTimer)(t).arg }

var simWallOffset int64

// SimSetWallOffset sets the difference between the wall clock and the monotonic clock of simulated time, in nanoseconds.
func SimSetWallOffset(d int64) { simWallOffset = d }

// SimGoid returns the id of the calling goroutine.
func SimGoid() uint64 { return uint64(getg().goid) }

// SimObject returns the heap object that p points into,
// unless it is one of the scheduler's, from which everything can be reached.
func SimObject(p uintptr) (base, size uintptr) {
	s := spanOf(p)
	if s == nil || s.state.get() != mSpanInUse || p < s.base() || p >= s.limit {
		return 0, 0
	}
	i := s.objIndex(p)
	base = s.base() + i*s.elemsize
	in := func(q unsafe.Pointer) bool { return uintptr(q)-base < s.elemsize }
	if s.isFree(i) || in(unsafe.Pointer(getg().bubble)) {
		return 0, 0
	}
	found := false
	forEachGRace(func(gp *g) { found = found || in(unsafe.Pointer(gp)) })
	for m := allm; m != nil && !found; m = m.alllink {
		found = in(unsafe.Pointer(m)) || in(unsafe.Pointer(m.g0)) || in(unsafe.Pointer(m.gsignal))
	}
	for _, pp := range allp {
		found = found || in(unsafe.Pointer(pp))
	}
	if found {
		return 0, 0
	}
	return base, s.elemsize
}

//go:nosplit
func simMapRand() uint64 {
	z := simMapSeed + 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
`

const synctestExtra = `package synctest

import (
	"internal/race"
	isynctest "internal/synctest"
)

// Added by the simulator's build overlay.

// Run executes f in a new bubble.
func Run(f func()) { isynctest.Run(f) }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return race.Errors() }

func RaceDisable() { race.Disable() }
func RaceEnable()  { race.Enable() }
`

func commonStd(o *overlay, goroot string) {
	f := goroot + "/src/runtime/rand.go"
	s := replaceOnce(f, read(f), "func maps_rand() uint64 {\n\treturn rand()\n}", "func maps_rand() uint64 {\n\treturn simMapRand()\n}")
	// compiled code calls rand for the seeds of maps on the stack
	s = replaceOnce(f, s, "//go:linkname rand\nfunc rand() uint64 {\n", "//go:linkname rand\nfunc rand() uint64 { return simMapRand() }\n\n//go:nosplit\n//go:linkname simRealRand\nfunc simRealRand() uint64 {\n")
	o.put(f, "runtime_rand.go", s)
	f = goroot + "/src/runtime/select.go"
	o.put(f, "runtime_select.go", replaceOnce(f, read(f), "cheaprandn(uint32(norder + 1))", "uint32(simStreamRand() % uint64(norder+1))"))
	for _, p := range [...][2]string{{"os/tempfile.go", "simRealRand"}, {"math/rand/rand.go", "simStreamRand"}, {"math/rand/v2/rand.go", "simStreamRand"}} {
		f = goroot + "/src/" + p[0]
		o.put(f, strings.ReplaceAll(p[0], "/", "_"), replaceOnce(f, read(f), "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime."+p[1]+"\n"))
	}
	f = goroot + "/src/runtime/time.go"
	s = replaceOnce(f, read(f), "\t\tsec = bubble.now / (1000 * 1000 * 1000)\n\t\tnsec = int32(bubble.now % (1000 * 1000 * 1000))\n", "\t\twall := bubble.now + simWallOffset\n\t\tsec = wall / (1000 * 1000 * 1000)\n\t\tnsec = int32(wall % (1000 * 1000 * 1000))\n")
	o.put(f, "runtime_time.go", replaceOnce(f, s, "\t\treturn sec, nsec, 0\n", "\t\treturn sec, nsec, bubble.now\n"))
	o.put(goroot+"/src/runtime/zsim.go", "runtime_zsim.go", runtimeExtra)
	f = goroot + "/src/internal/runtime/maps/runtime_alg.go"
	s = replaceOnce(f, read(f), "\t\thashkey[i] = uintptr(bootstrapRand())\n\t}\n", "\t\thashkey[i] = uintptr(uint64(0x9e3779b97f4a7c15) * uint64(i+1))\n\t}\n\tif hashkey[0] != 0 {\n\t\treturn // always the portable hash\n\t}\n")
	o.put(f, "maps_runtime_alg.go", s)
}

// instrument returns the source with "sync" redirected to the simulator and, if yields is set, a yield point before every statement.
func instrument(path, src string, yields bool) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		// let the compiler report it
		return src
	}
	type edit struct {
		off, del int
		text     string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"frostsim.local/sim/simsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), t})
		}
	}
	if yields {
		n := 0
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				edits = append(edits, edit{off(s.Pos()), 0, "simrt__.Y(); "})
				if g, ok := s.(*ast.GoStmt); ok {
					edits = append(edits, edit{off(g.End()), 0, "; simrt__.G()"})
				}
				n++
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch b := nd.(type) {
			case *ast.BlockStmt:
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
		if n > 0 {
			edits = append(edits, edit{off(f.Name.End()), 0, `; import simrt__ "frostsim.local/sim/simrt"`})
		}
	}
	if len(edits) == 0 {
		return src
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.WriteString(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.WriteString(src[pos:])
	return b.String()
}

const syscallExtra = `package syscall

import "runtime"

// Added by the simulator's build overlay: a fault plan for file operations.
//
// FROSTSIM_PLAN is a list of op:n:action separated by commas. op is open, read, write, close, fsync, rename, or stdout
// (a write to descriptor 1); n counts the operations of this kind on simulated files from 1; the action is an errno, short:K
// (K bytes are transferred and the rest is reported as not transferred), torn:K (K bytes are transferred, then the process dies),
// crash (the process dies after the operation), or, for close and fsync, lose:K (everything written after the first K bytes
// turns out to be lost and the operation fails with EIO).
// FROSTSIM_LOG is a file descriptor to which every operation is logged.

var (
	simPlanOn  bool
	simPlan    []simFault
	simCount   [8]int
	simFds     [1024]bool
	simLogFd   = -1
	simSeedOn  bool
	simSeed    uint64
	simSeedPos uint64
)

type simFault struct {
	op, n  int
	action int // 0 errno, 1 short, 2 torn, 3 crash
	val    int
}

const (
	simOpen = iota
	simRead
	simWrite
	simClose
	simFsync
	simRename
	simStdout
)

var simNames = [...]string{"open", "read", "write", "close", "fsync", "rename", "stdout"}

func simAtoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return n
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func simSplit(s string, sep byte) []string {
	var r []string
	st := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == sep {
			r = append(r, s[st:i])
			st = i + 1
		}
	}
	return r
}

func simU64(s string) uint64 {
	var n uint64
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	return n
}

func init() {
	if v, ok := Getenv("FROSTSIM_SEED"); ok {
		simSeedOn = true
		simSeed = simU64(v)
		runtime.SimSetMapSeed(simSeed)
	}
	if v, ok := Getenv("FROSTSIM_LOG"); ok {
		simLogFd = simAtoi(v)
	}
	v, ok := Getenv("FROSTSIM_PLAN")
	if !ok {
		return
	}
	simPlanOn = true
	if v == "" {
		return
	}
	for _, e := range simSplit(v, ',') {
		p := simSplit(e, ':')
		f := simFault{op: -1}
		for i, nm := range simNames {
			if nm == p[0] {
				f.op = i
			}
		}
		f.n = simAtoi(p[1])
		switch p[2] {
		case "short":
			f.action, f.val = 1, simAtoi(p[3])
		case "torn":
			f.action, f.val = 2, simAtoi(p[3])
		case "crash":
			f.action = 3
		case "lose":
			f.action, f.val = 4, simAtoi(p[3])
		default:
			f.val = simAtoi(p[2])
		}
		simPlan = append(simPlan, f)
	}
}

// SimRandom fills b from the simulated randomness source.
func SimRandom(b []byte) bool {
	if !simSeedOn {
		return false
	}
	for i := range b {
		z := simSeed ^ (simSeedPos+1)*0x9e3779b97f4a7c15
		simSeedPos++
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		b[i] = byte(z)
	}
	return true
}

func simPath(path string) bool {
	if !simPlanOn {
		return false
	}
	for _, p := range [...]string{"/proc/", "/sys/", "/dev/", "/etc/"} {
		if len(path) >= len(p) && path[:len(p)] == p {
			return false
		}
	}
	return true
}

func simDie() {
	for {
		RawSyscall(SYS_EXIT_GROUP, 137, 0, 0)
	}
}

func simLogOp(op, n int, what string) {
	if simLogFd < 0 {
		return
	}
	var d [20]byte
	i := len(d)
	for {
		i--
		d[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			break
		}
	}
	write(simLogFd, append([]byte(simNames[op]+":"+string(d[i:])+" "+what), 10))
}

// simNext counts an operation and returns the fault planned for it.
func simNext(op int) *simFault {
	simCount[op]++
	for i := range simPlan {
		if simPlan[i].op == op && simPlan[i].n == simCount[op] {
			simLogOp(op, simCount[op], "fault")
			return &simPlan[i]
		}
	}
	simLogOp(op, simCount[op], "ok")
	return nil
}

func simFd(fd int) bool { return simPlanOn && fd >= 0 && fd < len(simFds) && simFds[fd] }

func simOpened(fd int) {
	if fd >= 0 && fd < len(simFds) {
		simFds[fd] = true
	}
}

// simRW runs f, the real operation on a prefix of the buffer, under the fault plan.
func simRW(op int, p []byte, f func([]byte) (int, error)) (int, error) {
	ft := simNext(op)
	if ft == nil {
		return f(p)
	}
	k := ft.val
	if k > len(p) {
		k = len(p)
	}
	switch ft.action {
	case 0:
		return -1, Errno(ft.val)
	case 1:
		return f(p[:k])
	case 2:
		f(p[:k])
		simDie()
	case 3:
		f(p)
		simDie()
	}
	return f(p)
}
`

func cmdStd(o *overlay, goroot string) {
	f := goroot + "/src/syscall/syscall_unix.go"
	s := read(f)
	s = replaceOnce(f, s, "func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n\tif simFd(fd) {\n\t\treturn simRW(simRead, p, func(b []byte) (int, error) { return simRealRead(fd, b) })\n\t}\n\treturn simRealRead(fd, p)\n}\n\nfunc simRealRead(fd int, p []byte) (n int, err error) {\n")
	s = replaceOnce(f, s, "func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n\tif simFd(fd) {\n\t\treturn simRW(simWrite, p, func(b []byte) (int, error) { return simRealWrite(fd, b) })\n\t}\n\tif fd == 1 && simPlanOn {\n\t\treturn simRW(simStdout, p, func(b []byte) (int, error) { return simRealWrite(fd, b) })\n\t}\n\treturn simRealWrite(fd, p)\n}\n\nfunc simRealWrite(fd int, p []byte) (n int, err error) {\n")
	o.put(f, "syscall_unix.go", s)
	f = goroot + "/src/syscall/syscall_linux.go"
	s = read(f)
	open := func(sig, real, call, path string) {
		s = replaceOnce(f, s, sig, sig+"\n\tif simPath("+path+") {\n\t\tft := simNext(simOpen)\n\t\tif ft != nil && ft.action == 0 {\n\t\t\treturn -1, Errno(ft.val)\n\t\t}\n\t\tfd, err = "+call+"\n\t\tif err == nil {\n\t\t\tsimOpened(fd)\n\t\t}\n\t\tif ft != nil {\n\t\t\tsimDie()\n\t\t}\n\t\treturn\n\t}\n\treturn "+call+"\n}\n\n"+real)
	}
	open("func Open(path string, mode int, perm uint32) (fd int, err error) {", "func simRealOpen(path string, mode int, perm uint32) (fd int, err error) {", "simRealOpen(path, mode, perm)", "path")
	open("func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {", "func simRealOpenat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {", "simRealOpenat(dirfd, path, flags, mode)", "path")
	o.put(f, "syscall_linux.go", s)
	f = goroot + "/src/syscall/zsyscall_linux_" + runtime.GOARCH + ".go"
	s = read(f)
	simple := func(name, op string) {
		sig := "func " + name + "(fd int) (err error) {\n"
		clear := ""
		if name == "Close" {
			clear = "\t\tsimFds[fd] = false\n"
		}
		s = replaceOnce(f, s, sig, sig+"\tif simFd(fd) {\n\t\tft := simNext("+op+")\n"+clear+"\t\tif ft != nil && ft.action == 4 {\n\t\t\tFtruncate(fd, int64(ft.val))\n\t\t\tsimReal"+name+"(fd)\n\t\t\treturn EIO\n\t\t}\n\t\tif ft != nil && ft.action == 0 {\n\t\t\tsimReal"+name+"(fd)\n\t\t\treturn Errno(ft.val)\n\t\t}\n\t\terr = simReal"+name+"(fd)\n\t\tif ft != nil {\n\t\t\tsimDie()\n\t\t}\n\t\treturn err\n\t}\n\treturn simReal"+name+"(fd)\n}\n\nfunc simReal"+name+"(fd int) (err error) {\n")
	}
	simple("Close", "simClose")
	simple("Fsync", "simFsync")
	o.put(f, "zsyscall_linux.go", s)
	f = goroot + "/src/syscall/syscall_linux_" + runtime.GOARCH + ".go"
	s = read(f)
	sig := "func Rename(oldpath string, newpath string) (err error) {\n"
	if strings.Count(s, sig) == 0 {
		f = goroot + "/src/syscall/syscall_linux.go"
		s = read(o.Replace[f])
	}
	if strings.Count(s, sig) == 1 {
		s = strings.Replace(s, sig, sig+"\tif simPath(newpath) {\n\t\tft := simNext(simRename)\n\t\tif ft != nil && ft.action == 0 {\n\t\t\treturn Errno(ft.val)\n\t\t}\n\t\terr = simRealRename(oldpath, newpath)\n\t\tif ft != nil {\n\t\t\tsimDie()\n\t\t}\n\t\treturn err\n\t}\n\treturn simRealRename(oldpath, newpath)\n}\n\nfunc simRealRename(oldpath string, newpath string) (err error) {\n", 1)
		o.put(f, filepath.Base(f), s)
	}
	o.put(goroot+"/src/syscall/zsim.go", "syscall_zsim.go", syscallExtra)
	f = goroot + "/src/crypto/internal/sysrand/rand.go"
	s = read(f)
	s = replaceOnce(f, s, "func Read(b []byte) {\n", "func Read(b []byte) {\n\tif syscall.SimRandom(b) {\n\t\treturn\n\t}\n")
	s = replaceOnce(f, s, "\t\"sync/atomic\"\n", "\t\"sync/atomic\"\n\t\"syscall\"\n")
	o.put(f, "sysrand_rand.go", s)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	goroot := flag.String("goroot", runtime.GOROOT(), "")
	flag.StringVar(&outDir, "out", "", "")
	flag.Parse()
	if outDir == "" {
		fatal("-out missing")
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		fatal("%v", err)
	}

	sim := &overlay{map[string]string{}}
	commonStd(sim, *goroot)
	sim.put(*goroot+"/src/testing/synctest/zsim.go", "synctest_zsim.go", synctestExtra)
	f := *goroot + "/src/crypto/rand/rand.go"
	s := read(f)
	// a process crash in the simulator is a panic that the simulated node does not survive
	sim.put(f, "crypto_rand.go", replaceOnce(f, s, "\t\tfatal(\"crypto/rand: failed", "\t\tpanic(\"crypto/rand: failed"))

	// functions of timers run on goroutines of their own; a panic there belongs to the simulated process
	f = *goroot + "/src/time/sleep.go"
	sim.put(f, "time_sleep.go", replaceOnce(f, replaceOnce(f, read(f), "func goFunc(", "//go:norace\nfunc goFunc("), "\tgo arg.(func())()\n}", "\tif SimGoFunc != nil {\n\t\tgo SimGoFunc(arg.(func()))\n\t\treturn\n\t}\n\tgo arg.(func())()\n}\n\n// SimGoFunc, if set, runs the functions of timers.\nvar SimGoFunc func(func())"))

	yieldDirs := []string{"pkg/state", "pkg/frost", "pkg/messages", "pkg/eddsa", "pkg/helpers", "pkg/internal"}
	root := filepath.Join(*repo, "pkg")
	err := filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		yields := false
		for _, y := range yieldDirs {
			yields = yields || strings.HasPrefix(rel, y+"/")
		}
		src := read(p)
		if out := instrument(p, src, yields); out != src {
			sim.put(p, "repo_"+strings.ReplaceAll(rel, "/", "__"), out)
		}
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	sim.write("sim.json")

	cmd := &overlay{map[string]string{}}
	outDir = filepath.Join(outDir, "cmd")
	os.MkdirAll(outDir, 0o755)
	commonStd(cmd, *goroot)
	cmdStd(cmd, *goroot)
	outDir = filepath.Dir(outDir)
	cmd.write("cmd.json")
}
