package main

import (
	"fmt"
	"sort"

	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C05", Scenario: scenC05, Quick: 15000, Thorough: 150000, Real: realLib, Stub: stubNet + "; dishonest participants are simulated with an independent implementation",
		Rule: "one run is a key generation with 1..n-1 dishonest participants out of a catalogue of proof, degree and share offences, under a random schedule with faults"})
	register(&Check{ID: "C06", Scenario: scenC06, Quick: 12000, Thorough: 150000, Real: realLib, Stub: stubNet + "; dishonest participants are simulated with an independent implementation",
		Rule: "one run is a key generation in which dishonest participants send different broadcasts and shares to different parties; non-trivial when at least one library party succeeds"})
	register(&Check{ID: "C07", Scenario: scenC07, Quick: 12000, Thorough: 150000, Real: realLib, Stub: stubNet + "; dishonest signers are simulated with an independent implementation",
		Rule: "one run is a signing session with 1..n-1 dishonest signers out of a catalogue of offences, or with a library signer whose key share is damaged"})
	register(&Check{ID: "C08", Scenario: scenC08, Quick: 12000, Thorough: 150000, Real: realLib, Stub: stubNet + "; dishonest signers are simulated with an independent implementation",
		Rule: "one run is a signing session with adversaries, mismatching or undersized configurations or replayed messages of other sessions; every reported signature is verified with crypto/ed25519"})
}

// honestPast runs a key generation of the same parties in which everybody is honest and returns what the later cheaters broadcast.
func honestPast(r *Run, a *kgAttack) map[uint16]*ref.Msg {
	var bad []uint16
	for _, b := range a.byz {
		bad = append(bad, b.id)
	}
	p := kgAttackOf(r, a.ids, a.t, bad, nil, false, "past")
	for _, b := range p.byz {
		b.what, b.odd, b.nonce = "none", "", nil
		for i := range b.poly {
			b.poly[i] = b.rs()
		}
		clear(b.badShare)
		clear(b.badKind)
	}
	r.Event("an earlier session in which nobody cheats")
	p.net.Configure()
	p.net.Run(nil)
	past := map[uint16]*ref.Msg{}
	for _, m := range p.acc1 {
		for id, enc := range m {
			if has(bad, id) {
				past[id], _ = ref.Decode(enc)
			}
		}
	}
	return past
}

// scenC05Equivocation: different broadcasts for different parties; whoever has processed an offending one must blame its sender.
func scenC05Equivocation(r *Run) {
	a := genKgAttack(r, true)
	type key struct {
		at, from uint16
		t        byte
	}
	got := map[key]*ref.Msg{}
	a.net.OnHandled = func(nd *Node, p *Pkt, err error) {
		if err != nil {
			return
		}
		m, derr := ref.Decode(p.Enc)
		if derr != nil || m.To != 0 && m.To != nd.ID {
			return
		}
		if k := (key{nd.ID, m.From, p.Type}); got[k] == nil {
			got[k] = m
		}
	}
	a.net.Configure()
	a.net.Run(nil)
	caught := 0
	for _, nd := range a.net.Nodes {
		if nd.S == nil || !nd.Started {
			continue
		}
		off, all := map[uint16]bool{}, true
		for _, id := range without(a.ids, nd.ID) {
			m := got[key{nd.ID, id, ref.KG1}]
			if m == nil {
				all = false
			} else if len(m.C) != a.t+1 || !ref.SEq(m.S, ref.PoKChallenge(id, m.C[0], ref.Base(m.R).Sub(m.C[0].Mul(m.S)))) {
				off[id] = true
			}
		}
		if !all {
			continue
		}
		if len(off) == 0 {
			for _, id := range without(a.ids, nd.ID) {
				m, c := got[key{nd.ID, id, ref.KG2}], got[key{nd.ID, id, ref.KG1}]
				if m == nil {
					all = false
				} else if !ref.Base(m.Z).Eq(c.C.Eval(ref.SID(nd.ID))) {
					off[id] = true
				}
			}
		}
		if !all || len(off) == 0 {
			continue
		}
		caught++
		st, blame := nd.S.Status(), nd.S.Culprit()
		if st != failed {
			r.Fail("not-caught", "%s is %s although it has processed offending messages of %v", nd.S.Label, nd.S.Describe(), keysOf(off))
		}
		if !off[blame] && (has(a.honest, blame) || blame == 0) {
			r.Fail("wrong-blame", "%s blames %d, who is none of those whose messages offend %v: %v", nd.S.Label, blame, keysOf(off), nd.S.Err())
		}
		if nd.S.HasOutput() {
			r.Fail("output", "%s failed but publishes output", nd.S.Label)
		}
	}
	r.Note("equivocation")
	r.Trivial = caught == 0
	r.Sample = fmt.Sprintf("ids=%v t=%d honest=%v, different broadcasts: %d have caught a cheater", a.ids, a.t, a.honest, caught)
}

// crowdBlames: one real party among up to some hundred scripted ones, a few of which send something wrong.
func crowdBlames(r *Run, kind int) {
	s, me, in, canon := crowdInbox(r, kind)
	if canon[me].Status() != success {
		r.Discard("the session does not succeed without cheaters")
	}
	cheaters := pickIDs(r, without(s.ids, me), 1+r.Choose(3))
	one := ref.SInt(int64(1 + r.Choose(1000)))
	n1 := len(in) / 2
	at := map[uint16]int{}
	for i, b := range in[:n1] {
		at[uint16(b[1])<<8|uint16(b[2])] = i
	}
	cancel := kind == kindSign && len(cheaters) > 1 && r.Chance(1, 3)
	for j, id := range cheaters {
		i := at[id]
		m1, err := ref.Decode(in[i])
		m2, err2 := ref.Decode(in[n1+i])
		if err != nil || err2 != nil || m2.From != id {
			r.Discard("undecodable scripted message")
		}
		what := ""
		switch c := r.Choose(4); {
		case kind == kindKeygen && c == 0:
			what = "wrong-degree"
			in[i] = ref.EncKG1(id, m1.S, m1.R, append(append(ref.Commitments{}, m1.C...), ref.Base(one)))
		case kind == kindKeygen && c == 1:
			what = "wrong-degree"
			in[i] = ref.EncKG1(id, m1.S, m1.R, m1.C[:len(m1.C)-1])
		case kind == kindKeygen && c == 2:
			what = "wrong-proof"
			in[i] = ref.EncKG1(id, m1.S, ref.SAdd(m1.R, one), m1.C)
		case kind == kindKeygen:
			what = "wrong-share"
			in[n1+i] = ref.EncKG2(id, me, ref.SAdd(m2.Z, one))
		case cancel && j < 2:
			what = "cancelling-shares"
			d := one
			if j == 1 {
				d = ref.SNeg(one)
			}
			in[n1+i] = ref.EncSG2(id, ref.SAdd(m2.Z, d))
		case c == 0:
			what = "identity"
			if in[i] = ref.EncSG1(id, ref.Identity(), m1.E); r.Chance(1, 2) {
				in[i] = ref.EncSG1(id, m1.D, ref.Identity())
			}
		default:
			what = "wrong-share"
			in[n1+i] = ref.EncSG2(id, ref.SAdd(m2.Z, one))
		}
		r.Fault("byzantine:" + what)
		r.Event("%d: %s", id, what)
	}
	x := s.create(r, me, genTimeout(r), "")
	first := r.Choose(len(in) + 1)
	order := r.Perm(len(in))
	if r.Chance(1, 2) {
		sort.SliceStable(order, func(i, j int) bool { return in[order[i]][0] > in[order[j]][0] })
	}
	for i, j := range order {
		if i == first {
			x.Process()
		}
		x.HandleBytes(in[j])
		if i >= first && r.Chance(1, 2) {
			x.Process()
		}
		r.Sched(8, j)
	}
	for i := 0; i < 3; i++ {
		x.Process()
	}
	switch st := x.Status(); {
	case st != failed:
		r.Fail("not-caught", "%s is %s although it has processed what the cheaters %v of %d parties sent", x.Label, st, cheaters, len(s.ids))
	case !has(cheaters, x.Culprit()):
		r.Fail("wrong-culprit", "%s blames %d, the cheaters are %v: %v", x.Label, x.Culprit(), cheaters, x.Err())
	case x.HasOutput():
		r.Fail("output", "%s failed but has output", x.Label)
	}
	r.Note("crowd-blames")
	r.Sample = fmt.Sprintf("kind=%d, %d parties: %d blames one of %v", kind, len(s.ids), me, cheaters)
}

func scenC05(r *Run) {
	if r.Chance(1, 250) {
		crowdBlames(r, kindKeygen)
		return
	}
	if r.Chance(1, 6) {
		scenC05Equivocation(r)
		return
	}
	a := genKgAttack(r, false)
	if len(a.ids) < 8 && r.Chance(1, 8) {
		past := honestPast(r, a)
		for _, b := range a.byz {
			if m := past[b.id]; m != nil && (len(a.bcast) == 0 || r.Chance(1, 2)) {
				b.past, b.what = m, "old-proof"
				a.bcast[b.id] = true
				r.Fault("byzantine:old-proof")
			}
		}
		r.Event("now the attack: broadcasts of %v", keysOf(a.bcast))
	}
	a.net.Configure()
	a.net.Run(nil)
	off := a.offenders()
	for _, nd := range a.net.Nodes {
		if nd.S == nil {
			continue
		}
		st := nd.S.Status()
		blame := nd.S.Culprit()
		if st == failed && has(a.honest, blame) {
			r.Fail("framed", "%s blames the honest party %d: %v", nd.S.Label, blame, nd.S.Err())
		}
		must := len(a.bcast) > 0 || len(a.share[nd.ID]) > 0
		if !must {
			continue
		}
		if st != failed {
			r.Fail("not-caught", "%s is %s although it has processed the messages of the cheaters (broadcasts of %v, shares of %v)", nd.S.Label, nd.S.Describe(), keysOf(a.bcast), keysOf(a.share[nd.ID]))
		}
		if !off[blame] && !a.odd[blame] {
			r.Fail("wrong-blame", "%s blames %d, who is none of the cheaters %v: %v", nd.S.Label, blame, keysOf(off), nd.S.Err())
		}
		if nd.S.HasOutput() {
			r.Fail("output", "%s failed but publishes output", nd.S.Label)
		}
	}
	r.Trivial = len(off) == 0
	r.Sample = fmt.Sprintf("ids=%v t=%d honest=%v cheaters by broadcast %v, by share %v: all caught", a.ids, a.t, a.honest, keysOf(a.bcast), keysOf(a.share))
}

func scenC06(r *Run) {
	a := genKgAttack(r, true)
	if r.Chance(2, 3) {
		// only equivocation: the interesting case is that somebody succeeds
		for _, b := range a.byz {
			b.what = "none"
			for _, v := range b.equiv {
				v.what = "none"
			}
			clear(b.badShare)
			clear(b.badKind)
		}
		r.Event("only equivocation")
	}
	a.net.Configure()
	a.net.Run(nil)
	ok := 0
	for _, nd := range a.net.Nodes {
		if nd.S == nil || nd.S.Status() != success {
			continue
		}
		ok++
		checkKeygenOutput(r, nd.S, a.ids, a.t, true)
		var sum *ref.Pt
		for _, e := range nd.S.Out {
			if e.Type == ref.KG1 {
				m, err := ref.Decode(e.Enc)
				if err != nil {
					r.Fail("own-message", "the broadcast of %s cannot be decoded: %v", nd.S.Label, err)
				}
				sum = m.C[0]
			}
		}
		for _, id := range without(a.ids, nd.ID) {
			m, err := ref.Decode(a.acc1[nd.ID][id])
			if err != nil {
				r.Fail("incomplete", "%s succeeded without a valid broadcast of %d", nd.S.Label, id)
			}
			sum = sum.Add(m.C[0])
		}
		if sum == nil || !sum.Eq(keyPt(r, nd.S.KG.Public.GroupKey)) {
			r.Fail("group-key", "the group key of %s is not the sum of its own and the received contributions", nd.S.Label)
		}
	}
	r.Trivial = ok == 0
	r.Sample = fmt.Sprintf("ids=%v t=%d honest=%v: %d succeeded, each with a consistent key", a.ids, a.t, a.honest, ok)
}

// sgAttack is a signing session with dishonest signers.
type sgAttack struct {
	k               *SKey
	signers, honest []uint16
	msg             []byte
	net             *Net
	byz             []*sgByz
	damaged         map[uint16]bool
}

func genSgAttack(r *Run, lo func(n, t int) int, damage bool) *sgAttack {
	if r.Chance(1, 120) {
		ids, t, bad, plain := genCrowd(r)
		return sgAttackOf(r, DealKey(r, "", ids, t), ids, bad, plain, genMessage(r), damage, "")
	}
	n := genAttackN(r)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := DealKey(r, "", ids, t)
	signers := genSigners(r, ids, lo(n, t))
	msg := genMessage(r)
	m := len(signers)
	nb := 0
	if m > 1 {
		nb = 1 + r.Choose(m-1)
		if r.Chance(1, 2) {
			nb = 1
		}
	}
	var bad []uint16
	for _, i := range r.Perm(m)[:nb] {
		bad = append(bad, signers[i])
	}
	return sgAttackOf(r, k, signers, bad, nil, msg, damage, "")
}

// sgAttackOf is a session of signers in which bad are dishonest, except for plain ones; tag tells it apart from others of the same signers.
func sgAttackOf(r *Run, k *SKey, signers, bad []uint16, plain map[uint16]bool, msg []byte, damage bool, tag string) *sgAttack {
	a := &sgAttack{k: k, signers: signers, msg: msg, damaged: map[uint16]bool{}}
	for _, id := range a.signers {
		if !has(bad, id) {
			a.honest = append(a.honest, id)
		}
	}
	a.net = NewNet(r)
	for _, id := range a.signers {
		if has(a.honest, id) {
			addSign(a.net, id, a.signers, a.k.freshShare(id), a.k.freshPublic(r), a.msg, genTimeout(r), tag)
			continue
		}
		if damage && !plain[id] && r.Chance(1, 5) {
			// a party of the library whose stored share was damaged
			sh := a.k.freshShare(id)
			x := sh.Secret.Bytes()
			x[r.Choose(31)] ^= byte(1 << r.Choose(8))
			if _, err := sh.Secret.SetCanonicalBytes(x); err == nil {
				a.damaged[id] = true
				r.Fault("damaged-share")
				addSign(a.net, id, a.signers, sh, a.k.freshPublic(r), a.msg, genTimeout(r), "damaged"+tag)
				continue
			}
		}
		b := newSgByz(r, id, a.signers, a.k.Key, a.msg, a.honest, tag)
		b.last = r.Chance(1, 2)
		if plain[id] {
			b.plain = true
		} else if r.Chance(2, 3) {
			b.what = sgOffences[1+r.Choose(len(sgOffences)-1)]
			if b.what == "copied" || b.what == "complete" {
				b.last = true
			}
			r.Fault("byzantine:" + b.what)
		}
		a.byz = append(a.byz, b)
		nd := &Node{ID: id, Name: fmt.Sprintf("byz%d", id), Created: true}
		nd.Byz = func(nd *Node, p *Pkt) { b.act(r, a.net, nd, p) }
		a.net.Add(nd)
	}
	var actors []*sgByz
	for _, b := range a.byz {
		if !b.plain {
			actors = append(actors, b)
		}
	}
	if len(actors) >= 2 && r.Chance(1, 2) {
		// errors that cancel out
		d := actors[0].rs()
		actors[0].delta = d
		actors[1].delta = ref.SNeg(d)
		if len(actors) >= 3 && r.Chance(1, 2) {
			e := actors[0].rs()
			actors[1].delta = e
			actors[2].delta = ref.SNeg(ref.SAdd(d, e))
		}
		r.Fault("byzantine:cancelling-shares")
		for _, b := range actors[:2] {
			if b.what == "early" {
				b.what = "none"
			}
		}
	}
	return a
}

func (a *sgAttack) describe(r *Run) {
	r.Event("attack signers=%v t=%d honest=%v damaged=%v", a.signers, a.k.T, a.honest, keysOf(a.damaged))
	for _, b := range a.byz {
		if b.plain {
			continue
		}
		r.Event("byz %d: %s delta=%v last=%v equivocates to %v %v", b.id, b.what, b.delta != nil, b.last, keysOf(b.equiv), keysOf(b.equivZ))
	}
}

func scenC07(r *Run) {
	if r.Chance(1, 250) {
		crowdBlames(r, kindSign)
		return
	}
	a := genSgAttack(r, func(n, t int) int { return t + 1 }, true)
	a.describe(r)
	a.net.Configure()
	a.net.Run(nil)
	off := map[uint16]bool{}
	for id := range a.damaged {
		off[id] = true
	}
	identity := false
	silent := false
	for _, b := range a.byz {
		if b.did {
			off[b.id] = true
		}
		if b.what == "identity-D" || b.what == "identity-E" || b.what == "identity-both" {
			identity = true
		}
		silent = silent || !b.signed
	}
	for _, nd := range a.net.Nodes {
		if nd.S == nil || a.damaged[nd.ID] {
			continue
		}
		st := nd.S.Status()
		blame := nd.S.Culprit()
		if st == failed && has(a.honest, blame) {
			r.Fail("framed", "%s blames the honest signer %d: %v", nd.S.Label, blame, nd.S.Err())
		}
		if len(off) == 0 {
			continue
		}
		if st == success {
			r.Fail("not-caught", "%s succeeded although %v cheated", nd.S.Label, keysOf(off))
		}
		if nd.S.HasOutput() {
			r.Fail("output", "%s is %s but outputs a signature", nd.S.Label, st)
		}
		if st == running {
			if identity || !silent {
				r.Fail("not-caught", "%s is still running although it has processed the messages of the cheaters %v", nd.S.Label, keysOf(off))
			}
			continue
		}
		if !off[blame] {
			r.Fail("wrong-blame", "%s blames %d, who is none of the cheaters %v: %v", nd.S.Label, blame, keysOf(off), nd.S.Err())
		}
	}
	r.Trivial = len(off) == 0
	r.Sample = fmt.Sprintf("signers=%v t=%d honest=%v cheaters=%v: all caught", a.signers, a.k.T, a.honest, keysOf(off))
}

func scenC08(r *Run) {
	mode := r.Pick(4, 3, 3, 2)
	switch mode {
	case 0, 1: // adversaries, mode 1: too few signers
		lo := func(n, t int) int { return t + 1 }
		if mode == 1 {
			lo = func(n, t int) int { return 1 }
		}
		a := genSgAttack(r, lo, true)
		for _, b := range a.byz {
			if b.plain {
				continue
			}
			b.equiv, b.equivZ = map[uint16]bool{}, map[uint16]bool{}
			for _, v := range a.honest {
				b.equiv[v] = r.Chance(1, 6)
				b.equivZ[v] = r.Chance(1, 6)
			}
			if mode == 1 && r.Chance(1, 2) {
				b.what = "complete"
				b.last = true
			}
		}
		a.describe(r)
		a.net.Configure()
		a.net.Run(nil)
		ok := 0
		for _, nd := range a.net.Nodes {
			if nd.S == nil || nd.S.Status() != success {
				continue
			}
			ok++
			checkSignature(r, nd.S, a.k.Group, a.k.Public.GroupKey, a.msg)
			if len(a.signers) < a.k.T+1 {
				r.Fail("too-few", "%s reports success with %d signers although the threshold is %d", nd.S.Label, len(a.signers), a.k.T)
			}
		}
		r.Note(fmt.Sprintf("adversary:success=%v", ok > 0))
		r.Sample = fmt.Sprintf("signers=%v t=%d honest=%v: %d reported success", a.signers, a.k.T, a.honest, ok)
	case 2:
		scenMismatch(r, true)
	case 3:
		scenReplay(r)
	}
}

// scenMismatch runs signers of the library that disagree about the message, the key or the signer list.
func scenMismatch(r *Run, validity bool) {
	n := genAttackN(r)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := DealKey(r, "", ids, t)
	k2 := DealKey(r, "second", ids, t)
	if r.Chance(1, 3) {
		// same group key, other shares
		k2.Key.Poly[0] = k.Key.Poly[0]
		for _, id := range ids {
			k2.Key.Secret[id] = k2.Key.Poly.Eval(ref.SID(id))
			k2.Key.Pub[id] = ref.Base(k2.Key.Secret[id])
		}
		k2.Key.Group = k.Key.Group
		k2 = wrapKey(r, k2.Key)
	}
	signers := genSigners(r, ids, t+1)
	list2 := genSigners(r, ids, t+1)
	msg := genMessage(r)
	var msg2 []byte
	switch r.Choose(4) {
	case 0:
		msg2 = append(append([]byte(nil), msg...), 0)
	case 1:
		msg2 = genMessage(r)
	case 2:
		msg2 = append([]byte(nil), msg...)
		if len(msg2) > 0 {
			msg2[r.Choose(len(msg2))] ^= 1
		} else {
			msg2 = []byte{1}
		}
	case 3:
		if len(msg) > 0 {
			msg2 = append([]byte(nil), msg[:len(msg)-1]...)
		} else {
			msg2 = []byte("x")
		}
	}
	type conf struct {
		key, list int
		msg       []byte
	}
	cs := map[uint16]conf{}
	what := r.Choose(4)
	net := NewNet(r)
	for _, id := range ids {
		c := conf{0, 0, msg}
		if r.Chance(1, 3) {
			switch what {
			case 0:
				c.msg = msg2
			case 1:
				c.key = 1
			case 2:
				c.list = 1
			case 3:
				c = conf{r.Choose(2), r.Choose(2), [][]byte{msg, msg2}[r.Choose(2)]}
			}
		}
		l := signers
		if c.list == 1 {
			l = list2
		}
		if !has(l, id) {
			continue
		}
		kk := k
		if c.key == 1 {
			kk = k2
		}
		cs[id] = c
		to := genTimeout(r)
		if !validity {
			to = tenHours
		}
		addSign(net, id, l, kk.freshShare(id), kk.freshPublic(r), c.msg, to, "")
		r.Event("signer %d: key %d list %v message %d bytes same=%v", id, c.key, l, len(c.msg), string(c.msg) == string(msg))
	}
	if len(net.Nodes) == 0 {
		r.Trivial = true
		return
	}
	r.Fault("mismatched-configuration")
	net.Configure()
	net.Run(nil)
	ok := 0
	for _, nd := range net.Nodes {
		if nd.S.Status() != success {
			continue
		}
		ok++
		c := cs[nd.ID]
		kk, l := k, signers
		if c.key == 1 {
			kk = k2
		}
		if c.list == 1 {
			l = list2
		}
		if validity {
			checkSignature(r, nd.S, kk.Group, kk.Public.GroupKey, c.msg)
		}
		for _, id := range l {
			o, there := cs[id]
			ol := signers
			if o.list == 1 {
				ol = list2
			}
			if !there || o.key != c.key || string(o.msg) != string(c.msg) || fmt.Sprint(ol) != fmt.Sprint(l) {
				r.Fail("mismatch", "%s reports success although %d, a member of its signer list, disagrees about the message, key or signer list or does not take part", nd.S.Label, id)
			}
		}
	}
	if !validity {
		net.finishByTimeout(tenHours)
		for _, nd := range net.Nodes {
			if nd.S.Status() == running {
				r.Fail("hang", "%s never ends although its timeout has passed", nd.S.Label)
			}
		}
	}
	r.Note(fmt.Sprintf("mismatch:success=%v", ok > 0))
	r.Sample = fmt.Sprintf("mismatching signers (%d sessions): %d reported success", len(net.Nodes), ok)
}

// scenReplay runs several sessions over one key, mixing their messages.
func scenReplay(r *Run) {
	n := 2 + r.Choose(4)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := DealKey(r, "", ids, t)
	var old []*Pkt
	rounds := 2 + r.Choose(2)
	total := 0
	for s := 0; s < rounds; s++ {
		signers := genSigners(r, ids, t+1)
		msg := genMessage(r)
		net := NewNet(r)
		for _, id := range signers {
			addSign(net, id, signers, k.Shares[id], k.Public, msg, 0, fmt.Sprint(s))
		}
		net.Configure()
		left := 12
		net.Inject = func() bool {
			if len(old) == 0 || left == 0 || !r.Chance(1, 3) {
				return false
			}
			left--
			nd := net.Nodes[r.Choose(len(net.Nodes))]
			if !nd.Created {
				return false
			}
			p := old[r.Choose(len(old))]
			r.Event("replay of an earlier session: type %d from %d to %s", p.Type, uint16(p.Enc[1])<<8|uint16(p.Enc[2]), nd.Name)
			r.Fault("cross-session-replay")
			r.Sched(8, nd.Slot, int(p.Type))
			nd.S.HandleBytes(p.Enc)
			if nd.Started {
				nd.dirty = true
			}
			return true
		}
		net.Run(nil)
		for _, nd := range net.Nodes {
			old = append(old, nd.Heard...)
			if nd.S.Status() == success {
				total++
				checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
			}
		}
		r.Event("session %d ended", s)
	}
	r.Sample = fmt.Sprintf("%d sessions over one key with replayed messages: %d sessions succeeded", rounds, total)
}
