package main

import (
	"fmt"
	"reflect"
	"runtime"
	"testing/synctest"
	"time"
	"weak"

	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"

	"frostsim.local/sim/ref"
	"frostsim.local/sim/simrt"
)

func init() {
	register(&Check{ID: "C26", Scenario: scenC26, Quick: 8000, Thorough: 200000, Real: realLib, Stub: stubNet,
		Rule: "one run floods a session with hundreds of messages that have no effect between the messages of its protocol and measures what it keeps and how much it computes, or decodes hostile lengths, or drops sessions and looks whether they disappear"})
}

func scenC26(r *Run) {
	switch r.Pick(5, 2, 2) {
	case 0:
		scenFlood(r)
	case 1:
		scenHostileLength(r)
	case 2:
		scenDropped(r)
	}
}

// sizeOf leaves out what only closures refer to: their memory can only be guessed.
func sizeOf(x *Sess) int {
	w := &memWalk{seen: map[memKey]bool{}, objs: map[uintptr]bool{}, exact: true}
	w.walk(reflect.ValueOf(x.St))
	n := 0
	for _, b := range w.blocks {
		n += len(b)
	}
	return n
}

// scenFlood: what a session refuses or ignores leaves nothing behind.
func scenFlood(r *Run) {
	s := genSession(r, 6)
	self := s.signers[r.Choose(len(s.signers))]
	x := s.create(r, self, genTimeout(r), "")
	peers := without(s.signers, self)
	twin := s.canonical(r)
	var traffic []*Emit
	for _, id := range peers {
		for _, e := range twin[id].Out {
			if e.To == 0 || e.To == self {
				traffic = append(traffic, e)
			}
		}
	}
	pend := make([]*Emit, len(traffic))
	for i, j := range r.Perm(len(traffic)) {
		pend[i] = traffic[j]
	}
	rs := randScalars(r.Seed, "flood")
	var heard []*Emit
	kinds := map[string]bool{}
	flood := func() {
		k := []int{200, 500, 1500, 12000, 70000}[r.Pick(450, 300, 150, 3, 1)]
		ft := s.firstType()
		what := []string{"repetition", "conflict", "from-self", "outsider", "other-protocol", "misaddressed", "undecodable"}[r.Choose(7)]
		if (what == "repetition" || what == "conflict") && len(heard) == 0 {
			what = "outsider"
		}
		deg := 1 + r.Choose(4)
		var dec []byte
		mk := func(t byte, from, to uint16) []byte {
			switch t {
			case ref.KG1:
				// the commitments are the same every time, which makes it cheaper
				if dec == nil {
					p := ref.Poly{}
					for i := 0; i <= deg; i++ {
						p = append(p, rs())
					}
					dec = ref.EncKG1(from, rs(), rs(), p.Commit())
				}
				b := append([]byte(nil), dec...)
				copy(b[5:37], rs().Bytes())
				return b
			case ref.KG2:
				return ref.EncKG2(from, to, rs())
			case ref.SG1:
				if dec == nil {
					dec = ref.EncSG1(from, ref.Base(rs()), ref.Base(rs()))
				}
				return append([]byte(nil), dec...)
			}
			return ref.EncSG2(from, rs())
		}
		peer := peers[r.Choose(len(peers))]
		out := uint16(1)
		for has(s.signers, out) {
			out++
		}
		other := uint16(1)
		for other == self {
			other++
		}
		t := byte(r.Choose(2))
		var prior *Emit
		if len(heard) > 0 {
			prior = heard[r.Choose(len(heard))]
		}
		next := func() []byte {
			switch what {
			case "repetition":
				return prior.Enc
			case "conflict":
				return mk(prior.Type, prior.By.ID, self)
			case "from-self":
				return mk(ft+t, self, other)
			case "outsider":
				return mk(ft+t, out, self)
			case "other-protocol":
				return mk(byte(ref.KG1+ref.SG1)-ft+t, peer, self)
			case "misaddressed":
				return mk(ref.KG2, peer, other)
			}
			b := mk(ft+t, peer, self)
			return b[:len(b)-1]
		}
		kinds[what] = true
		r.Event("%d messages: %s (type %d)", k, what, ft+t)
		r.Faults["flood:"+what] += k
		runtime.GC()
		before := sizeOf(x)
		var ws []weak.Pointer[messages.Message]
		early, late := int64(0), int64(0)
		for i := 0; i < k; i++ {
			m, err := decode(r, next())
			if err != nil {
				if what == "undecodable" {
					continue
				}
				r.Discard("the flood cannot be decoded: %v", err)
			}
			ws = append(ws, weak.Make(m))
			x.Handle(m)
			n := simrt.Steps
			if i < 20 {
				early = max(early, n)
			} else if i >= k-20 {
				late = max(late, n)
			}
			m = nil
			if i == k/2 && r.Chance(1, 3) {
				x.Process()
			}
		}
		after := sizeOf(x)
		if after-before > 4096+16*k {
			r.Fail("retained", "after %d messages without effect (%s) a session holds %d bytes instead of %d", k, what, after, before)
		}
		if late > 4*early+100 {
			r.Fail("work", "after %d messages without effect (%s) handling one more takes %d steps instead of %d", k, what, late, early)
		}
		runtime.GC()
		alive := 0
		for _, w := range ws {
			if w.Value() != nil {
				alive++
			}
		}
		if alive > 0 {
			r.Fail("retained", "%d of %d messages without effect (%s) are still held after they were refused", alive, k, what)
		}
		r.Sched(6, len(what), k)
	}
	size0 := sizeOf(x)
	bytes := 0
	for step := 0; step < len(pend)+6 && step < 30; step++ {
		if r.Chance(1, max(4, len(pend)/2)) {
			flood()
		}
		if len(pend) > 0 {
			e := pend[0]
			pend = pend[1:]
			if x.HandleBytes(e.Enc) == nil {
				heard = append(heard, e)
				bytes += len(e.Enc)
			}
			if r.Chance(1, 2) {
				x.Process()
			}
		} else {
			x.Process()
		}
		r.Sched(3, step)
	}
	flood()
	x.Process()
	// elements take 160 bytes in memory and 32 on the wire, and there is one copy of some of them
	if n := sizeOf(x); n > size0+64*bytes+1024*len(s.signers)*(s.t+2)+16384 {
		r.Fail("retained", "a session that took %d bytes of messages holds %d bytes (it began with %d)", bytes, n, size0)
	}
	if len(pend) == 0 && x.Status() != success {
		r.Fail("affected", "the session is %s although it has received everything", x.Describe())
	}
	r.Sample = fmt.Sprintf("kind=%d parties=%v: floods of %v leave nothing behind", s.kind, s.signers, kinds)
}

// scenHostileLength: decoding takes memory in proportion to what was received.
func scenHostileLength(r *Run) {
	rs := randScalars(r.Seed, "len")
	n := 0
	most := 0.0
	measure := func(what string, b []byte, f func([]byte)) {
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		f(b)
		runtime.ReadMemStats(&z)
		d := int(z.TotalAlloc - a.TotalAlloc)
		n++
		most = max(most, float64(d)/float64(len(b)+1))
		if d > 32768+100*len(b) {
			r.Fail("allocation", "decoding %d bytes (%s) allocates %d bytes", len(b), what, d)
		}
	}
	dec := func(b []byte) {
		if _, err := decode(r, b); err == nil {
			r.Note("decoded")
		}
	}
	c := ref.Poly{rs(), rs()}.Commit()
	for i := 0; i < 12; i++ {
		var b []byte
		what := ""
		switch r.Choose(4) {
		case 0: // the degree announces more than there is
			b = ref.EncKG1(1+uint16(r.Choose(65535)), rs(), rs(), c)
			d := []int{65535, 65534, 32768, 1000, 255, 0}[r.Choose(6)]
			b[69], b[70] = byte(d>>8), byte(d)
			what = fmt.Sprintf("degree %d announced", d)
		case 1: // many coefficients that cannot be decoded
			b = ref.EncKG1(1, rs(), rs(), c)
			k := []int{10, 300, 4000}[r.Choose(3)]
			b[69], b[70] = byte((k-1)>>8), byte(k-1)
			b = append(b[:71:71], make([]byte, 32*k)...)
			for j := 71; j < len(b); j++ {
				b[j] = 0xff
			}
			what = fmt.Sprintf("%d invalid coefficients", k)
		case 2: // noise with a plausible header
			b = make([]byte, r.Choose(3000))
			for j := range b {
				b[j] = byte(r.Choose(256))
			}
			if len(b) > 5 {
				b[0] = byte(1 + r.Choose(4))
			}
			what = "noise"
		case 3:
			b = ref.EncSG2(7, rs())
			b = append(b, make([]byte, r.Choose(100000))...)
			what = "trailing bytes"
		}
		r.Event("decode %s: %d bytes", what, len(b))
		r.Fault("hostile-length")
		measure(what, b, dec)
	}
	r.Sample = fmt.Sprintf("%d hostile messages, at most %.0f bytes allocated per received byte", n, most)
}

// scenDropped: finished or abandoned sessions disappear when their caller drops them.
func scenDropped(r *Run) {
	g0 := runtime.NumGoroutine()
	var ws []weak.Pointer[state.State]
	desc := ""
	longest := time.Duration(0)
	armed := 0
	func() {
		m := 1 + r.Choose(3)
		for i := 0; i < m; i++ {
			var net *Net
			var tmo []time.Duration
			timeout := func() time.Duration {
				d := []time.Duration{0, time.Second, time.Hour}[r.Choose(3)]
				longest = max(longest, d)
				tmo = append(tmo, d)
				return d
			}
			tag := fmt.Sprint(i)
			s := genSession(r, 4)
			if s.kind == kindKeygen {
				net = keygenNet(r, s.ids, s.t, timeout, tag)
			} else {
				net = signNet(r, s.k, s.signers, s.msg, timeout, tag)
			}
			net.Configure()
			net.Jitter = 0
			stop := -1
			if r.Chance(1, 2) {
				stop = r.Choose(6 * len(s.signers))
			}
			net.Run(func() bool { return stop >= 0 && net.Steps > stop })
			for j, nd := range net.Nodes {
				if nd.S == nil {
					continue
				}
				st := nd.S.Status()
				if tmo[j] > 0 && st == running {
					armed++
				}
				if tmo[j] > 0 && r.Chance(1, 2) || nd.S.St == nil {
					continue
				}
				ws = append(ws, weak.Make(nd.S.St))
				desc += " " + st
				r.Note("dropped:" + st)
				r.Fault("abandoned-session")
			}
			r.Event("%d sessions dropped", len(ws))
		}
	}()
	// pending timeouts end the others
	fired := 0
	next := time.SimGoFunc
	time.SimGoFunc = func(f func()) { fired++; next(f) }
	time.Sleep(longest + time.Hour)
	synctest.Wait()
	time.SimGoFunc = next
	if fired > armed {
		r.Fail("timers", "%d timers were still running although only %d sessions (%s) were", fired, armed, desc)
	}
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	alive := 0
	for _, w := range ws {
		if w.Value() != nil {
			alive++
		}
	}
	if alive > 0 {
		r.Fail("not-released", "%d of %d sessions (%s) that their callers have dropped are still in memory", alive, len(ws), desc)
	}
	if g := runtime.NumGoroutine(); g > g0 {
		r.Fail("goroutines", "%d goroutines are left of sessions (%s) that have ended or were dropped", g-g0, desc)
	}
	r.Trivial = len(ws) == 0
	r.Sample = fmt.Sprintf("%d sessions (%s) dropped: none is left", len(ws), desc)
}
