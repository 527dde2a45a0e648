package main

import (
	"fmt"
	"reflect"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C15", Scenario: scenC15, Quick: 8000, Thorough: 100000, Real: realLib, Stub: stubNet,
		Rule: "one run takes one party to one end (success, a cheater in each round, timeout before, between and after rounds) under a random schedule and then searches all memory reachable from its session for its secrets"})
}

type secretVal struct {
	what string
	s    *ref.Scalar
	img  [][]byte
}

func mkSecret(what string, s *ref.Scalar) secretVal {
	v := secretVal{what: what, s: s, img: [][]byte{append([]byte(nil), s.Bytes()...)}}
	x := scal(s)
	mem := append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(x)), unsafe.Sizeof(*x))...)
	if string(mem[:32]) != string(v.img[0]) {
		v.img = append(v.img, mem)
	}
	// big endian, as text encodings of numbers have it
	be := append([]byte(nil), v.img[0]...)
	for i, j := 0, len(be)-1; i < j; i, j = i+1, j-1 {
		be[i], be[j] = be[j], be[i]
	}
	v.img = append(v.img, be)
	return v
}

// committed returns the public points of everything secret a session committed to.
func committed(es []*Emit) map[string]string {
	m := map[string]string{}
	for _, e := range es {
		x, err := ref.Decode(e.Enc)
		if err != nil {
			continue
		}
		switch x.Type {
		case ref.SG1:
			m[string(x.D.Enc())] = "nonce d"
			m[string(x.E.Enc())] = "nonce e"
		case ref.KG1:
			for i, c := range x.C {
				m[string(c.Enc())] = fmt.Sprintf("polynomial coefficient %d", i)
			}
			m[string(ref.PoKNonce(x.C[0], x.S, x.R).Enc())] = "proof nonce"
		}
	}
	return m
}

// drawnSecrets finds the scalars behind the commitments among the values derived from the drawn randomness.
func drawnSecrets(rs *engine.Stream, es []*Emit) []secretVal {
	pts := committed(es)
	var out []secretVal
	off := 0
	for _, n := range append([]int{0}, rs.Chunks...) {
		off += n
		for _, size := range []int{64, 32} {
			if off+size > len(rs.Drawn) {
				continue
			}
			var x *ref.Scalar
			if size == 64 {
				x = ref.SWide(rs.Drawn[off : off+64])
			} else {
				b := append(append([]byte(nil), rs.Drawn[off:off+32]...), make([]byte, 32)...)
				x = ref.SWide(b)
			}
			k := string(ref.Base(x).Enc())
			if w, ok := pts[k]; ok {
				out = append(out, mkSecret(w, x))
				delete(pts, k)
			}
		}
	}
	return out
}

func scenC15(r *Run) {
	s := genSession(r, 6)
	self := s.signers[r.Choose(len(s.signers))]
	twin := s.canonical(r)
	ft := s.firstType()
	others := without(s.signers, self)
	type in struct {
		from uint16
		enc  []byte
	}
	var msgs []in
	for _, id := range others {
		for _, e := range twin[id].Out {
			if e.To == 0 || e.To == self {
				msgs = append(msgs, in{id, e.Enc})
			}
		}
	}
	bad := -1
	end := r.Pick(2, 3, 3)
	if end == 1 {
		bad = r.Choose(len(msgs))
		x, _ := ref.Decode(msgs[bad].enc)
		rs := randScalars(r.Seed, "bad")
		switch x.Type {
		case ref.KG1:
			c := x.C
			if r.Chance(1, 2) {
				c = append(append(ref.Commitments{}, c...), ref.Base(rs()))
			}
			if r.Chance(1, 2) {
				// a valid proof over a polynomial of the wrong degree
				sec := rs()
				c[0] = ref.Base(sec)
				a, b := ref.Prove(x.From, sec, rs())
				msgs[bad].enc = ref.EncKG1(x.From, a, b, append(c, ref.Base(rs())))
			} else {
				msgs[bad].enc = ref.EncKG1(x.From, rs(), rs(), c)
			}
		case ref.KG2:
			msgs[bad].enc = ref.EncKG2(x.From, x.To, rs())
		case ref.SG1:
			msgs[bad].enc = ref.EncSG1(x.From, ref.Identity(), x.E)
		case ref.SG2:
			msgs[bad].enc = ref.EncSG2(x.From, rs())
		}
		r.Fault(fmt.Sprintf("byzantine-message:%d", x.Type))
	}
	timeout := time.Duration(0)
	if end == 2 || r.Chance(1, 3) {
		timeout = time.Minute
	}
	x := s.create(r, self, timeout, "")
	cutAt := 1 << 30
	if end == 2 {
		cutAt = r.Choose(2*len(msgs) + 3)
	}

	// what must not be found
	secrets := func() []secretVal {
		l := drawnSecrets(x.Rand, x.Out)
		if s.kind == kindSign {
			sk := s.k.Secret[self]
			l = append(l, mkSecret("key share", sk), mkSecret("weighted key share", ref.SMul(ref.Lagrange(self, s.signers, ref.SInt(0)), sk)))
			return l
		}
		// own share of the own polynomial plus any of the received ones
		var coef ref.Poly
		byName := map[string]*ref.Scalar{}
		for _, v := range l {
			byName[v.what] = v.s
		}
		for i := 0; i <= s.t; i++ {
			c := byName[fmt.Sprintf("polynomial coefficient %d", i)]
			if c == nil {
				return l
			}
			coef = append(coef, c)
		}
		acc := coef.Eval(ref.SID(self))
		var sh []*ref.Scalar
		for _, m := range msgs {
			if d, err := ref.Decode(m.enc); err == nil && d.Type == ref.KG2 {
				sh = append(sh, d.Z)
			}
		}
		// the sum may contain any of the received shares; of a crowd's, some
		part := func(name string, in func(i int) bool) {
			sum := acc
			for i := range sh {
				if in(i) {
					sum = ref.SAdd(sum, sh[i])
				}
			}
			l = append(l, mkSecret("accumulated share ("+name+")", sum))
		}
		if len(sh) <= 6 {
			for k := 0; k < 1<<len(sh); k++ {
				part(fmt.Sprintf("%b", k), func(i int) bool { return k>>i&1 == 1 })
			}
			return l
		}
		part("all", func(int) bool { return true })
		for k := range sh {
			part(fmt.Sprintf("the first %d", k), func(i int) bool { return i < k })
			part(fmt.Sprintf("all but that of number %d", k), func(i int) bool { return i != k })
		}
		return l
	}
	// the evaluations of its polynomial: as many as determine it must not be found either
	dealt := func() (l []secretVal) {
		for _, e := range x.Out {
			if d, err := ref.Decode(e.Enc); err == nil && d.Type == ref.KG2 {
				l = append(l, mkSecret(fmt.Sprintf("the share for %d", d.To), d.Z))
			}
		}
		return l
	}
	finishedAt := ""
	check := func() {
		if x.Status() == running {
			return
		}
		if finishedAt == "" {
			finishedAt = x.Status()
			if finishedAt == failed {
				finishedAt = fmt.Sprintf("failed: %v", x.Err())
			}
			kind := "success"
			if x.Status() == failed {
				kind = "timeout"
				if x.Culprit() != 0 {
					kind = "cheater"
				}
			}
			stage := 0
			for _, e := range x.Out {
				stage = max(stage, int(e.Type-ft)+1)
			}
			r.Note(fmt.Sprintf("end:%s after round %d", kind, stage))
		}
		blocks := reachTimers(x.St)
		for _, v := range secrets() {
			for _, b := range v.img {
				if containsSecret(blocks, b) {
					r.Fail("retained", "%s ended (%s) but its session still holds its %s", x.Label, finishedAt, v.what)
				}
			}
		}
		if d := dealt(); len(d) > s.t {
			n, held := 0, ""
			for _, v := range d {
				for _, b := range v.img {
					if containsSecret(blocks, b) {
						n++
						held += " " + v.what
						break
					}
				}
			}
			if n > s.t {
				r.Fail("retained", "%s ended (%s) but its session still holds%s, which determine its polynomial of degree %d", x.Label, finishedAt, held, s.t)
			}
		}
		if r.Chance(1, 12) {
			// without knowing how secrets are derived: any scalar in memory that belongs to a commitment
			pts := committed(x.Out)
			if s.kind == kindSign {
				pts[string(s.k.Pub[self].Enc())] = "key share"
				pts[string(s.k.Pub[self].Mul(ref.Lagrange(self, s.signers, ref.SInt(0))).Enc())] = "weighted key share"
			} else if x.Status() == success && x.KG.Public != nil {
				pts[string(ref.Base(toScalar(&x.KG.SecretKey.Secret)).Enc())] = "key share"
			}
			n := 0
			for _, bl := range blocks {
				for i := 0; i+32 <= len(bl) && n < 3000; i += 8 {
					sc, err := ref.SDecode(append([]byte(nil), bl[i:i+32]...))
					if err != nil || ref.SZero(sc) {
						continue
					}
					n++
					if w, ok := pts[string(ref.Base(sc).Enc())]; ok {
						r.Fail("retained", "%s ended (%s) but its session still holds its %s", x.Label, finishedAt, w)
					}
				}
			}
			r.Note("scan-by-commitment")
		}
	}
	control := false
	steps := 0
	pass := func() {
		steps++
		if x.Status() == running && len(x.Out) > 0 && !control {
			// the search does see the secrets of a running session
			blocks := reachTimers(x.St)
			for _, v := range secrets() {
				control = control || containsSecret(blocks, v.img[0])
			}
			r.Note(fmt.Sprintf("control: secret of a running session found=%v", control))
		}
		check()
		if steps == cutAt && x.Status() == running {
			r.Event("time passes")
			r.Fault("stall")
			time.Sleep(timeout + 1)
			synctest.Wait()
			if x.Status() == running {
				r.Discard("no timeout")
			}
			check()
		}
	}
	if cutAt == 0 {
		steps = -1
		pass()
	}
	r.Event("self=%d end=%d cut=%d", self, end, cutAt)
	started := false
	start := r.Choose(len(msgs) + 1)
	order := r.Perm(len(msgs))
	if r.Chance(1, 3) {
		start = 0
	}
	if r.Chance(1, 2) {
		// rounds in order
		for i := range order {
			order[i] = i
		}
		for i := range order {
			for j := i + 1; j < len(order); j++ {
				if msgs[order[j]].enc[0] < msgs[order[i]].enc[0] {
					order[i], order[j] = order[j], order[i]
				}
			}
		}
	}
	for n := 0; n <= len(msgs); n++ {
		if n == start {
			started = true
			r.Sched(1)
			x.Process()
			pass()
		}
		if n == len(msgs) {
			break
		}
		m := msgs[order[n]]
		r.Sched(2, int(m.enc[0]), int(m.from))
		x.HandleBytes(m.enc)
		pass()
		if started && r.Chance(3, 4) {
			x.Process()
			pass()
		}
	}
	for i := 0; i < 3; i++ {
		x.Process()
		pass()
	}
	if x.Status() == running && timeout > 0 {
		time.Sleep(timeout + 1)
		synctest.Wait()
		pass()
	}
	if x.Status() == running {
		r.Discard("the session does not end")
	}
	// later calls bring nothing back
	for _, m := range msgs {
		x.HandleBytes(m.enc)
	}
	x.Process()
	check()
	r.Sample = fmt.Sprintf("kind=%d n=%d t=%d: %s; %d secrets not found in its memory", s.kind, len(s.signers), s.t, finishedAt, len(secrets()))
}

// scribble overwrites every scalar and group element reachable from p.
func scribble(p any, fill func() *ristretto.Scalar) {
	w := &memWalk{seen: map[memKey]bool{}, objs: map[uintptr]bool{}}
	sc, el := reflect.TypeOf(ristretto.Scalar{}), reflect.TypeOf(ristretto.Element{})
	w.visit = func(v reflect.Value) {
		switch v.Type() {
		case sc:
			v.Addr().Interface().(*ristretto.Scalar).Set(fill())
		case el:
			v.Addr().Interface().(*ristretto.Element).ScalarBaseMult(fill())
		}
	}
	w.walk(reflect.ValueOf(p))
}
