// Package engine provides the choice tape every simulation is driven by: one seed (or one recorded tape) is one execution.
package engine

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"testing/synctest"
	"time"

	"frostsim.local/sim/simrt"
	"frostsim.local/sim/simsync"
)

// Violation is a broken property.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

type violationPanic struct{ v Violation }
type discardPanic struct{ why string }

// CodePanic is a panic that came out of the code under test.
type CodePanic struct {
	Value any
	Stack string
}

// Run is one execution.
type Run struct {
	Prop    string
	Seed    uint64
	Tier    string
	Tape    []uint32
	pos     int
	replay  bool
	rng     *rand.Rand
	h       hash.Hash
	Verbose bool
	Log     []string
	Events  int
	Faults  map[string]int
	Notes   map[string]int
	// Trivial is set by scenarios for a run that exercised nothing.
	Trivial bool
	Sample  string
	SimTime time.Duration
	mapCtr  uint64
	sched   hash.Hash
	// Async is the first panic of the code under test in a goroutine of its own.
	Async *CodePanic
	// InCode is set while a call into the code under test is in progress.
	InCode string
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SeedFor derives the seed of the i-th run.
func SeedFor(base uint64, prop string, i int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", base, prop, i)))
	return binary.LittleEndian.Uint64(h[:]) >> 1
}

func newRun(prop, tier string, seed uint64, tape []uint32, replay bool) *Run {
	return &Run{Prop: prop, Tier: tier, Seed: seed, Tape: tape, replay: replay, rng: rand.New(rand.NewPCG(seed, mix(seed))),
		h: sha256.New(), sched: sha256.New(), Faults: map[string]int{}, Notes: map[string]int{}}
}

// Choose returns a number below n. 0 is always the least disturbing choice.
func (r *Run) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if r.replay {
		if r.pos < len(r.Tape) {
			v = int(r.Tape[r.pos]) % n
		} else if r.pos > len(r.Tape)+300000 {
			// a loop waiting for another choice than the least disturbing one
			r.Discard("the tape ended")
		}
	} else {
		v = r.rng.IntN(n)
		r.Tape = append(r.Tape, uint32(v))
	}
	r.pos++
	return v
}

// Chance is true with probability num/den; false is choice 0.
func (r *Run) Chance(num, den int) bool { return r.Choose(den) >= den-num }

// Between returns lo..hi inclusive, lo being choice 0.
func (r *Run) Between(lo, hi int) int { return lo + r.Choose(hi-lo+1) }

// Pick chooses an index by weight; index 0 is choice 0.
func (r *Run) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := r.Choose(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Perm is a permutation; the identity is all zeros.
func (r *Run) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + r.Choose(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bytes returns n bytes determined by one choice.
func (r *Run) Bytes(n int) []byte {
	s := NewStream(r.Seed, fmt.Sprintf("bytes/%d", r.Choose(1<<30)))
	b := make([]byte, n)
	s.full(b)
	return b
}

// Event records something that happened.
func (r *Run) Event(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.Events++
	r.h.Write([]byte(s))
	r.h.Write([]byte{0})
	if r.Verbose {
		r.Log = append(r.Log, s)
	}
}

// Sched records a scheduling step: what identifies the interleaving.
func (r *Run) Sched(a ...int) {
	var b [4]byte
	for _, x := range a {
		binary.LittleEndian.PutUint32(b[:], uint32(x))
		r.sched.Write(b[:])
	}
}

func (r *Run) SchedHash() uint64 { return binary.LittleEndian.Uint64(r.sched.Sum(nil)) }
func (r *Run) Hash() string      { return fmt.Sprintf("%x", r.h.Sum(nil)[:12]) }

func (r *Run) Fault(kind string) { r.Faults[kind]++ }
func (r *Run) Note(kind string)  { r.Notes[kind]++ }

// Fail ends the run with a violation.
func (r *Run) Fail(kind, f string, a ...any) {
	v := Violation{Kind: kind, Detail: fmt.Sprintf(f, a...)}
	if r.Verbose {
		r.Log = append(r.Log, "VIOLATION "+v.Kind+": "+v.Detail)
	}
	panic(violationPanic{v})
}

// Discard ends the run without a verdict: something outside this property went wrong.
func (r *Run) Discard(f string, a ...any) { panic(discardPanic{fmt.Sprintf(f, a...)}) }

// ClockJump sets the wall clock, which the passage of time does not depend on, to another time.
func (r *Run) ClockJump() {
	u := []time.Duration{time.Nanosecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 365 * 24 * time.Hour}[r.Choose(7)]
	d := time.Duration(r.Choose(10)) * u
	if r.Chance(1, 2) {
		d = -d
	}
	r.Event("the wall clock jumps to %v", d)
	r.Fault("clock-jump")
	runtime.SimSetWallOffset(int64(d))
}

// NextMapSeed makes the iteration orders of the following operation a function of the seed.
func (r *Run) NextMapSeed() {
	r.mapCtr++
	runtime.SimSetMapSeed(mix(r.Seed ^ r.mapCtr*0x2545f4914f6cdd1d))
}

// Scenario is a simulation of one property.
type Scenario func(*Run)

// Result of one execution.
type Result struct {
	Run       *Run
	Violation *Violation
	Discarded string
	// Harness is a failure of the simulator itself.
	Harness string
}

// Exec runs a scenario once, inside a bubble with a simulated clock.
func Exec(prop, tier string, s Scenario, seed uint64, tape []uint32, replay, verbose, bubble bool) (res Result) {
	r := newRun(prop, tier, seed, tape, replay)
	r.Verbose = verbose
	res.Run = r
	simrt.Steps, simrt.Limit = 0, 1<<62
	simrt.Exceeded = func() { panic("simrt: the code under test does not terminate") }
	simrt.Hook = nil
	simsync.Block = nil
	runtime.SimSetWallOffset(0)
	r.NextMapSeed()
	time.SimGoFunc = func(f func()) {
		if cp := Guard(f); cp != nil && r.Async == nil {
			r.Async = cp
		}
	}
	finished := false
	body := func() {
		defer func() {
			switch p := recover().(type) {
			case nil:
			case violationPanic:
				v := p.v
				res.Violation = &v
			case discardPanic:
				res.Discarded = p.why
			case Malformed:
				res.Violation = &Violation{"malformed", string(p)}
			default:
				st := string(debug.Stack())
				if inLibrary(st) {
					res.Violation = &Violation{"crash", fmt.Sprintf("using an object the library returned panics: %v [%s]", p, trimStack(st))}
				} else {
					res.Harness = fmt.Sprintf("%v\n%s", p, st)
				}
			}
		}()
		start := time.Now()
		s(r)
		finished = true
		if bubble {
			r.SimTime = time.Since(start)
		}
	}
	if bubble {
		func() {
			defer func() {
				p := recover()
				if finished && strings.Contains(fmt.Sprint(p), "main bubble goroutine has exited") {
					return // goroutines of sessions that were abandoned
				}
				if p != nil && res.Harness == "" && res.Violation == nil && res.Discarded == "" {
					if r.InCode != "" {
						res.Violation = &Violation{"hang", r.InCode + " never returned: every goroutine is blocked"}
					} else {
						res.Harness = fmt.Sprintf("bubble: %v", p)
					}
				}
			}()
			synctest.Run(body)
		}()
	} else {
		body()
	}
	time.SimGoFunc = nil
	if r.Async != nil && res.Violation == nil {
		res.Violation = &Violation{"crash", fmt.Sprintf("a timer's goroutine panicked: %v [%s]", r.Async.Value, r.Async.Stack)}
	}
	simrt.Hook = nil
	simsync.Block = nil
	return res
}

// Malformed is the panic of helpers that are given an object of the library that makes no sense.
type Malformed string

// inLibrary returns whether the panic whose stack is st arose in code under test.
func inLibrary(st string) bool {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.HasPrefix(l, "github.com/taurusgroup/frost-ed25519/") || strings.HasPrefix(l, "filippo.io/edwards25519")
	}
	return false
}

// guardLimit bounds the statements that f may execute where the caller sets no bound.
const guardLimit = 200_000_000

// Guard runs f, code under test, and returns the panic it ended in, if any.
func Guard(f func()) (cp *CodePanic) {
	if simrt.Bound(guardLimit) {
		defer simrt.Unbound()
	}
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case violationPanic, discardPanic:
				panic(p)
			}
			cp = &CodePanic{p, trimStack(string(debug.Stack()))}
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "frost-ed25519/") || strings.Contains(l, "simsync") {
			if !strings.HasPrefix(l, "\t") {
				keep = append(keep, strings.TrimSpace(l))
			}
		}
		if len(keep) >= 6 {
			break
		}
	}
	return strings.Join(keep, " < ")
}

// Stream is a deterministic randomness source of one simulated node.
type Stream struct {
	c     *rand.ChaCha8
	Drawn []byte // everything delivered so far
	// Short limits the number of bytes returned by the next reads (0: no limit); when it is used up reads are complete again.
	Short []int
	// FailAt makes the read with this number (from 1) and all later ones fail.
	FailAt int
	// FailPart is the number of bytes the first failing read delivers with its error, if it is asked for more.
	FailPart int
	Reads    int
	Flip     int // index of a delivered byte to complement, -1 for none
	Chunks   []int
	Replays  []byte
}

func NewStream(seed uint64, label string) *Stream {
	return &Stream{c: rand.NewChaCha8(sha256.Sum256([]byte(fmt.Sprintf("%d|%s", seed, label)))), Flip: -1}
}

func (s *Stream) full(b []byte) {
	// one byte at a time from 8-byte words: independent of the sizes of the reads
	for i := range b {
		if len(s.Replays) == 0 {
			s.Replays = binary.LittleEndian.AppendUint64(nil, s.c.Uint64())
		}
		b[i] = s.Replays[0]
		s.Replays = s.Replays[1:]
	}
}

type randError struct{}

func (randError) Error() string { return "simulated randomness failure" }

func (s *Stream) Read(b []byte) (int, error) {
	s.Reads++
	if s.FailAt > 0 && s.Reads >= s.FailAt {
		if s.Reads == s.FailAt && s.FailPart > 0 && s.FailPart < len(b) {
			s.full(b[:s.FailPart])
			s.Drawn = append(s.Drawn, b[:s.FailPart]...)
			s.Chunks = append(s.Chunks, s.FailPart)
			return s.FailPart, randError{}
		}
		return 0, randError{}
	}
	n := len(b)
	if len(s.Short) > 0 {
		if k := s.Short[0]; k < n && k > 0 {
			n = k
		}
		s.Short = s.Short[1:]
	}
	s.full(b[:n])
	if s.Flip >= len(s.Drawn) && s.Flip < len(s.Drawn)+n {
		b[s.Flip-len(s.Drawn)] ^= 0xff
	}
	s.Drawn = append(s.Drawn, b[:n]...)
	s.Chunks = append(s.Chunks, n)
	return n, nil
}

// Switch is installed as crypto/rand.Reader; it draws from the node that is executing.
type Switch struct {
	Cur *Stream
	// Pick, if set, finds the stream of the calling goroutine.
	Pick func() *Stream
}

func (s *Switch) Read(b []byte) (int, error) {
	if s.Pick != nil {
		if st := s.Pick(); st != nil {
			return st.Read(b)
		}
	}
	if s.Cur == nil {
		panic("randomness drawn outside of any simulated node")
	}
	return s.Cur.Read(b)
}
