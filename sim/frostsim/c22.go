package main

import (
	"encoding/json"
	"fmt"
	"testing/synctest"
	"time"

	"frostsim.local/sim/engine"
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
)

func init() {
	register(&Check{ID: "C22", Scenario: scenC22, Quick: 2500, Thorough: 60000, Real: realLib, Stub: stubNet + "; processes crash and restart from a simulated disk holding the library's encodings",
		Rule: "one run is a key generation followed by up to 12 signing sessions hit by crashes, lasting partitions, losses and timeouts; after every faulty stretch the faults stop and t+1 or more holders that are up must sign"})
}

// holder is a key holder over many sessions: a process with memory and a disk.
type holder struct {
	id    uint16
	disk  []byte // durable
	share *eddsa.SecretShare
	pub   *eddsa.Public
	up    bool
	dead  bool // crashed for ever
	boots int
}

type diskImage struct {
	Share  *eddsa.SecretShare
	Public *eddsa.Public
}

func (h *holder) store(r *Run) { h.disk = marshal(r, "the key material", diskImage{h.share, h.pub}) }

func (h *holder) crash() { h.up, h.share, h.pub = false, nil, nil }

func (h *holder) boot(r *Run) {
	var d diskImage
	var err error
	if p := guardDecode(func() { err = json.Unmarshal(h.disk, &d) }); p != "" {
		r.Fail("crash", "restoring stored key material panicked: %s", p)
	}
	if err != nil {
		r.Fail("not-restored", "holder %d cannot restore its stored key material: %v", h.id, err)
	}
	h.share, h.pub, h.up = d.Share, d.Public, true
	h.boots++
	r.Fault("restart-from-storage")
}

// endurance: hundreds of sessions of the same long-lived processes, many of them abandoned, timed out or spoilt by somebody; all the
// others must succeed.
func endurance(r *Run) {
	n := 2 + r.Choose(3)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	procs := map[uint16]*engine.Stream{}
	for _, id := range ids {
		procs[id] = stream(r, fmt.Sprintf("proc/%d", id))
	}
	many := 80 + r.Choose(600)
	spoil := r.Choose(5)
	signed := 0
	for i := 0; i < many; i++ {
		signers := genSigners(r, ids, t+1)
		msg := r.Bytes(r.Choose(100))
		to := time.Duration(r.Choose(2)) * time.Hour
		how := 0
		if i < many-1 && r.Chance(spoil, 6) {
			how = 1 + r.Choose(4)
		}
		var ss []*Sess
		for _, id := range signers {
			m := msg
			if how == 1 && id == signers[0] {
				m = append(append([]byte{}, msg...), 1) // every share will look wrong
			}
			s := NewSign(r, fmt.Sprintf("session %d/%d", i, id), signers, k.Shares[id], k.Public, m, to, procs[id])
			if s.CreateErr != nil {
				r.Fail("refused", "%d cannot create session number %d: %v", id, i, s.CreateErr)
			}
			ss = append(ss, s)
		}
		r.Sched(how, len(ss))
		switch how {
		case 0:
			lockstep(r, ss)
			for _, s := range ss {
				if s.Status() != success {
					r.Fail("unavailable", "session number %d of the processes, with all %d signers up and connected, is %s", i, len(signers), s.Describe())
				}
			}
			checkSignature(r, ss[r.Choose(len(ss))], k.Group, k.Public.GroupKey, msg)
			signed++
		case 1:
			r.Fault("different-messages")
			lockstep(r, ss)
		case 2:
			r.Fault("abandoned")
			for _, s := range ss {
				s.Process()
			}
		case 3:
			r.Fault("silent")
			lockstep(r, ss[1:])
		case 4:
			r.Fault("abandoned")
		}
		if to > 0 && r.Chance(1, 2) {
			time.Sleep(to + time.Second)
			synctest.Wait()
		}
	}
	r.Note("endurance")
	r.Sample = fmt.Sprintf("%d sessions of the same processes, %d of them signed, the others were spoilt or abandoned", many, signed)
}

func scenC22(r *Run) {
	if r.Chance(1, 100) {
		endurance(r)
		return
	}
	n := 2 + r.Choose(6)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := libKeyNet(r, ids, t)
	hs := map[uint16]*holder{}
	for _, id := range ids {
		h := &holder{id: id, share: k.Shares[id], pub: k.pubs[id], up: true}
		h.store(r)
		hs[id] = h
	}
	up := func() (l []uint16) {
		for _, id := range ids {
			if hs[id].up {
				l = append(l, id)
			}
		}
		return
	}
	alive := func() (l []uint16) {
		for _, id := range ids {
			if !hs[id].dead {
				l = append(l, id)
			}
		}
		return
	}
	stretches := 1 + r.Choose(4)
	sessions, aborted, signed, short := 0, 0, 0, 0
	start := func(net *Net, id uint16, signers []uint16, msg []byte, to time.Duration) {
		sessions++
		h := hs[id]
		label := fmt.Sprintf("s%d/%d", sessions, id)
		nd := &Node{ID: id, Each: r.Chance(1, 2)}
		nd.Create = func() {
			nd.S = NewSign(r, label, signers, h.share, h.pub, msg, to, stream(r, label))
			if nd.S.CreateErr != nil {
				r.Fail("refused", "holder %d (started %d times) cannot create a session of %v: %v", id, h.boots+1, signers, nd.S.CreateErr)
			}
		}
		net.Add(nd)
	}
	timeouts := []time.Duration{0, time.Second, time.Minute, time.Hour}
	for st := 0; st < stretches; st++ {
		// ---- a faulty stretch
		for a := r.Choose(4); a > 0; a-- {
			signers := genSigners(r, ids, min(n, t+1))
			msg := genMessage(r)
			net := NewNet(r)
			to := timeouts[r.Choose(4)]
			for _, id := range signers {
				if hs[id].up {
					start(net, id, signers, msg, to)
				}
			}
			if len(net.Nodes) == 0 {
				continue
			}
			net.Configure()
			net.NoHeal = r.Chance(1, 2)
			if net.NoHeal {
				net.Kinds.part = true
				net.Budget += 4
				if net.PFault == 0 {
					net.PFault = 100
				}
			}
			crashes := r.Choose(3)
			if crashes == 0 && len(net.Nodes) == len(signers) && r.Chance(1, 2) {
				crashes = 1
			}
			net.Inject = func() bool {
				if crashes == 0 || !r.Chance(1, 3*len(net.Nodes)) {
					return false
				}
				crashes--
				nd := net.Nodes[r.Choose(len(net.Nodes))]
				h := hs[nd.ID]
				if nd.Down || !h.up || !nd.Created {
					return false
				}
				r.Event("crash of %d", nd.ID)
				r.Fault("crash")
				r.Sched(9, nd.Slot)
				nd.Down = true
				h.crash()
				if r.Chance(1, 5) && len(alive()) > t+1 {
					h.dead = true
					r.Event("%d is gone for ever", nd.ID)
					r.Fault("permanent-crash")
				} else if r.Chance(1, 3) {
					h.boot(r) // back at once, without the session
				}
				return true
			}
			net.Run(nil)
			if r.Chance(1, 2) {
				time.Sleep(time.Duration(1+r.Choose(4000)) * time.Second)
				synctest.Wait()
				r.Event("time passes")
			}
			for _, nd := range net.Nodes {
				if nd.Down || nd.S == nil {
					continue
				}
				if nd.S.Status() == success {
					checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
				} else {
					aborted++
				}
			}
		}
		// somebody crashes between sessions
		if r.Chance(1, 2) {
			if l := up(); len(l) > 0 {
				h := hs[l[r.Choose(len(l))]]
				h.crash()
				r.Fault("crash")
				r.Event("crash of %d between sessions", h.id)
			}
		}
		// ---- too few holders: no session succeeds
		if r.Chance(1, 3) {
			msg := genMessage(r)
			few := pickIDs(r, ids, r.Choose(t)+1)
			few = sortedIDs(few)
			list := few
			if r.Chance(1, 2) {
				list = genSigners(r, ids, t+1) // the others never answer
				for _, id := range few {
					if !has(list, id) {
						list = append(list, id)
					}
				}
				list = sortedIDs(list)
			}
			net := NewNet(r)
			for _, id := range few {
				if !hs[id].up && !hs[id].dead {
					hs[id].boot(r)
				}
				if hs[id].up {
					start(net, id, list, msg, time.Minute)
				}
			}
			if len(net.Nodes) > 0 {
				net.Configure()
				net.Run(nil)
				short++
				for _, nd := range net.Nodes {
					if nd.S.Status() == success || nd.S.HasOutput() {
						r.Fail("too-few", "%s reports success with %d of the %d holders it takes (signers %v)", nd.S.Label, len(net.Nodes), t+1, list)
					}
				}
				net.finishByTimeout(time.Minute)
				for _, nd := range net.Nodes {
					if nd.S.Status() == success || nd.S.HasOutput() {
						r.Fail("too-few", "%s reports success with %d of the %d holders it takes (signers %v)", nd.S.Label, len(net.Nodes), t+1, list)
					}
				}
			}
		}
		// ---- the faults stop
		l := up()
		for _, id := range alive() {
			if !hs[id].up && (len(up()) < t+1 || r.Chance(1, 2)) {
				hs[id].boot(r)
			}
		}
		l = up()
		if len(l) < t+1 {
			r.Discard("too few holders left")
		}
		signers := genSigners(r, l, t+1)
		if r.Chance(1, 2) {
			signers = sortedIDs(pickIDs(r, l, t+1))
		}
		msg := genMessage(r)
		net := NewNet(r)
		for _, id := range signers {
			start(net, id, signers, msg, timeouts[r.Choose(2)]*3600)
		}
		net.Policy = r.Choose(polMax)
		if net.Policy == polStarve {
			net.Starve = r.Choose(len(net.Nodes))
		}
		net.Run(nil)
		if m := len(signers); net.Steps > 20*m*m+100 {
			r.Fail("slow", "a session of %d signers without faults took %d steps", m, net.Steps)
		}
		for _, nd := range net.Nodes {
			if s := nd.S.Status(); s != success {
				r.Fail("unavailable", "the faults have stopped and %v (threshold %d) are up, but %s is %s", signers, t, nd.S.Label, nd.S.Describe())
			}
			checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
		}
		signed++
	}
	r.Sample = fmt.Sprintf("n=%d t=%d: %d session starts, %d aborted, %d undersized attempts, %d of %d signatures after faults", n, t, sessions, aborted, short, signed, stretches)
}

// netKey is a generated key with every party's own public data.
type netKey struct {
	*SKey
	pubs map[uint16]*eddsa.Public
}

// libKeyNet generates a key over a faulty network.
func libKeyNet(r *Run, ids []uint16, t int) *netKey {
	net := keygenNet(r, ids, t, zeroTimeout, "setup")
	net.Configure()
	net.Run(nil)
	nk := &netKey{pubs: map[uint16]*eddsa.Public{}}
	var k *SKey
	for _, nd := range net.Nodes {
		if nd.S.Status() != success || nd.S.KG.SecretKey == nil || nd.S.KG.Public == nil {
			r.Discard("setup: keygen did not succeed")
		}
		nk.pubs[nd.ID] = nd.S.KG.Public
	}
	k = keyOf(r, net, ids, t)
	nk.SKey = k
	return nk
}
