package main

import (
	"fmt"
	"sort"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/messages"

	"frostsim.local/sim/ref"
)

// Pkt is a message in the network.
type Pkt struct {
	Seq      int
	From, To int // slots
	Enc      []byte
	Type     byte
	E        *Emit             // the emission it came from, if a real session sent it
	Ptr      *messages.Message // handed over as an object instead of bytes
	What     string            // for injected packets
	Copies   int               // duplicates made so far
	Born     int
}

// Node is a participant at a slot of the network.
type Node struct {
	Slot int
	ID   uint16
	Name string
	S    *Sess // a session of the real library
	RK   *ref.KeygenParty
	RS   *ref.SignParty
	// Byz, if set, is called instead of the honest behaviour: once with nil when the node starts, then for every packet.
	Byz func(nd *Node, p *Pkt)
	// Create makes the session when the process starts; until then packets wait.
	Create  func()
	Created bool
	Started bool
	Each    bool // process after every delivered message, otherwise at ticks
	Late    bool // starts late
	dirty   bool
	Down    bool
	Heard   []*Pkt // delivered packets
	byzMem  map[string]any
}

// Real reports whether the node runs the real library.
func (n *Node) Real() bool { return n.S != nil || n.Create != nil }

// Net is a simulated network.
type Net struct {
	r      *Run
	Nodes  []*Node
	Flight []*Pkt
	Lost   []*Pkt
	seq    int
	Steps  int
	// scheduling
	Policy  int
	Starve  int
	PFault  int // per thousand
	Budget  int // faults left
	Kinds   faultSet
	ToAll   bool // unicast messages are sent to everybody
	PtrPct  int  // percentage of broadcast packets handed over as objects
	LateEnc bool // encode at delivery instead of emission
	group   []int
	split   bool
	NoHeal  bool // a partition may last to the end
	Jitter  time.Duration
	// hooks
	OnEmit    func(nd *Node, es []*Emit)
	OnHandled func(nd *Node, p *Pkt, err error)
	OnStep    func()
	Inject    func() bool // may inject something; called between events
	Quiet     bool
	minDel    int
}

type faultSet struct{ dup, drop, part, lateStart bool }

const (
	polFIFO = iota
	polRandom
	polLIFO
	polStarve
	polLaterFirst
	polBurst
	polMax
)

var polNames = [...]string{"fifo", "random", "lifo", "starve", "later-round-first", "burst"}

func NewNet(r *Run) *Net { return &Net{r: r, Starve: -1} }

// Configure draws the scheduling policy and the enabled faults of a run (swarm: every run has its own mix).
func (n *Net) Configure() {
	r := n.r
	n.Policy = r.Pick(2, 6, 2, 3, 4, 3)
	if n.Policy == polStarve {
		n.Starve = r.Choose(len(n.Nodes))
	}
	n.Kinds.dup = r.Chance(1, 2)
	n.Kinds.drop = r.Chance(1, 2)
	n.Kinds.part = r.Chance(1, 3)
	n.Kinds.lateStart = r.Chance(1, 2)
	n.ToAll = r.Chance(1, 4)
	if n.Kinds.dup || n.Kinds.drop || n.Kinds.part {
		n.PFault = []int{30, 100, 250}[r.Choose(3)]
		n.Budget = 5 + r.Choose(8)*4
	}
	for _, nd := range n.Nodes {
		if n.Kinds.lateStart {
			nd.Late = r.Chance(1, 3)
		}
	}
	if r.Chance(1, 4) {
		n.Jitter = []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute}[r.Choose(4)]
	}
	r.Event("net policy=%s starve=%d faults=%+v/%d toAll=%v", polNames[n.Policy], n.Starve, n.Kinds, n.PFault, n.ToAll)
	r.Note("policy:" + polNames[n.Policy])
}

func (n *Net) Add(nd *Node) *Node {
	nd.Slot = len(n.Nodes)
	if nd.Name == "" {
		nd.Name = fmt.Sprintf("n%d", nd.ID)
	}
	n.Nodes = append(n.Nodes, nd)
	return nd
}

func (n *Net) slotOf(id uint16) int {
	for _, nd := range n.Nodes {
		if nd.ID == id {
			return nd.Slot
		}
	}
	return -1
}

// Send puts one copy of enc into the network.
func (n *Net) Send(from, to int, enc []byte, what string) *Pkt {
	n.seq++
	p := &Pkt{Seq: n.seq, From: from, To: to, Enc: enc, What: what, Born: n.Steps}
	if len(enc) > 0 {
		p.Type = enc[0]
	}
	n.Flight = append(n.Flight, p)
	return p
}

// SendEnc routes an encoded message of a simulated party: broadcasts to everybody, others to the addressee.
func (n *Net) SendEnc(from int, enc []byte, what string) {
	to := uint16(enc[3])<<8 | uint16(enc[4])
	for _, nd := range n.Nodes {
		if nd.Slot == from || (to != 0 && nd.ID != to && !n.ToAll) {
			continue
		}
		n.Send(from, nd.Slot, enc, what)
	}
}

func (n *Net) sendEmits(from *Node, es []*Emit) {
	for _, e := range es {
		for _, nd := range n.Nodes {
			if nd.Slot == from.Slot || (e.To != 0 && nd.ID != e.To && !n.ToAll) {
				continue
			}
			p := n.Send(from.Slot, nd.Slot, e.Enc, "")
			p.E = e
			if e.To == 0 && n.PtrPct > 0 && n.r.Chance(n.PtrPct, 100) {
				p.Ptr = e.Msg
			}
		}
	}
	if n.OnEmit != nil && len(es) > 0 {
		n.OnEmit(from, es)
	}
}

func (n *Net) start(nd *Node) {
	nd.Started = true
	if !n.Quiet {
		n.r.Event("start %s", nd.Name)
	}
	n.r.Sched(1, nd.Slot)
	switch {
	case nd.Byz != nil:
		nd.Byz(nd, nil)
	case nd.RK != nil:
		for _, b := range nd.RK.Step() {
			n.SendEnc(nd.Slot, b, "")
		}
	case nd.RS != nil:
		for _, b := range nd.RS.Step() {
			n.SendEnc(nd.Slot, b, "")
		}
	default:
		n.sendEmits(nd, nd.S.Process())
	}
}

func (n *Net) tick(nd *Node) {
	nd.dirty = false
	if !n.Quiet {
		n.r.Event("tick %s", nd.Name)
	}
	n.r.Sched(2, nd.Slot)
	n.sendEmits(nd, nd.S.Process())
}

func (n *Net) deliver(p *Pkt) {
	nd := n.Nodes[p.To]
	if !n.Quiet {
		n.r.Event("deliver #%d %s->%s type %d %s", p.Seq, n.Nodes[p.From].Name, nd.Name, p.Type, p.What)
	}
	n.r.Sched(3, p.From, p.To, int(p.Type), len(p.What))
	nd.Heard = append(nd.Heard, p)
	switch {
	case nd.Byz != nil:
		nd.Byz(nd, p)
	case nd.RK != nil:
		nd.RK.Receive(p.Enc)
		if nd.Started {
			for _, b := range nd.RK.Step() {
				n.SendEnc(nd.Slot, b, "")
			}
		}
	case nd.RS != nil:
		nd.RS.Receive(p.Enc)
		if nd.Started {
			for _, b := range nd.RS.Step() {
				n.SendEnc(nd.Slot, b, "")
			}
		}
	default:
		var err error
		switch {
		case p.Ptr != nil:
			err = nd.S.Handle(p.Ptr)
		case n.LateEnc && p.E != nil:
			b, e := encode(n.r, p.E.Msg)
			if e != nil {
				n.r.Fail("encode", "late encoding of a message of %s failed: %v", p.E.By.Label, e)
			}
			err = nd.S.HandleBytes(b)
		default:
			err = nd.S.HandleBytes(p.Enc)
		}
		if n.OnHandled != nil {
			n.OnHandled(nd, p, err)
		}
		if !nd.Started {
			break
		}
		if nd.Each {
			n.sendEmits(nd, nd.S.Process())
		} else {
			nd.dirty = true
		}
	}
}

func (n *Net) blocked(a, b int) bool { return n.split && n.group[a] != n.group[b] }

func (n *Net) heal() {
	if n.split {
		n.split = false
		n.r.Event("heal")
		n.r.Fault("partition-heal")
	}
}

// fault injects one network fault.
func (n *Net) fault() {
	r := n.r
	n.Budget--
	var k []int
	if n.Kinds.dup {
		k = append(k, 0)
	}
	if n.Kinds.drop {
		k = append(k, 1)
	}
	if n.Kinds.part {
		k = append(k, 2)
	}
	if len(k) == 0 {
		return
	}
	switch k[r.Choose(len(k))] {
	case 0: // duplicate something in flight or already delivered
		var c []*Pkt
		c = append(c, n.Flight...)
		for _, nd := range n.Nodes {
			c = append(c, nd.Heard...)
		}
		if len(c) == 0 {
			return
		}
		p := c[r.Choose(len(c))]
		if p.Copies >= 2 {
			return
		}
		p.Copies++
		n.seq++
		q := *p
		q.Seq = n.seq
		q.Copies = 2
		n.Flight = append(n.Flight, &q)
		r.Event("dup #%d as #%d", p.Seq, q.Seq)
		r.Fault("duplicate")
	case 1: // lose, to be retransmitted later
		if len(n.Flight) == 0 {
			return
		}
		i := r.Choose(len(n.Flight))
		p := n.Flight[i]
		n.Flight = append(n.Flight[:i:i], n.Flight[i+1:]...)
		n.Lost = append(n.Lost, p)
		r.Event("lose #%d", p.Seq)
		r.Fault("loss")
	case 2:
		if n.split {
			n.heal()
			return
		}
		n.split = true
		n.group = make([]int, len(n.Nodes))
		for i := range n.group {
			n.group[i] = r.Choose(2)
		}
		r.Event("partition %v", n.group)
		r.Fault("partition")
	}
}

type event struct {
	kind int // 0 start, 1 deliver, 2 tick
	nd   *Node
	p    *Pkt
	i    int
}

func (n *Net) create(nd *Node) {
	nd.Created = true
	if nd.Create != nil {
		nd.Create()
	}
}

// Run delivers everything; it returns when nothing is left to do.
func (n *Net) Run(stop func() bool) {
	r := n.r
	for _, nd := range n.Nodes {
		// a process that starts late may exist already and receive messages, or not exist yet
		if !nd.Created && !(nd.Late && r.Chance(1, 2)) {
			n.create(nd)
		}
	}
	burst := -1
	for {
		if stop != nil && stop() {
			return
		}
		if n.OnStep != nil {
			n.OnStep()
		}
		n.Steps++
		if n.Inject != nil && n.Inject() {
			continue
		}
		if n.Budget > 0 && r.Chance(n.PFault, 1000) {
			n.fault()
			continue
		}
		if n.Budget > 0 && r.Chance(1, 100) {
			r.ClockJump()
		}
		var ev, late []event
		for _, nd := range n.Nodes {
			if nd.Down {
				continue
			}
			if !nd.Started {
				if nd.Late {
					late = append(late, event{0, nd, nil, 0})
				} else {
					ev = append(ev, event{0, nd, nil, 0})
				}
			} else if nd.dirty {
				ev = append(ev, event{2, nd, nil, 0})
			}
		}
		for i, p := range n.Flight {
			nd := n.Nodes[p.To]
			if nd.Down || !nd.Created || n.blocked(p.From, p.To) {
				continue
			}
			ev = append(ev, event{1, nd, p, i})
		}
		if len(late) > 0 && (len(ev) == 0 || r.Chance(1, 2*len(n.Nodes)+4)) {
			ev = late
			if len(ev) > 0 {
				r.Fault("late-start")
			}
		}
		if len(ev) == 0 {
			if n.split && !n.NoHeal {
				n.heal()
				continue
			}
			if len(n.Lost) > 0 && !n.split {
				// retransmission
				n.Flight = append(n.Flight, n.Lost...)
				r.Event("retransmit %d", len(n.Lost))
				r.Fault("retransmission")
				n.Lost = nil
				continue
			}
			return
		}
		if len(n.Lost) > 0 && r.Chance(1, 16) {
			i := r.Choose(len(n.Lost))
			n.Flight = append(n.Flight, n.Lost[i])
			n.Lost = append(n.Lost[:i:i], n.Lost[i+1:]...)
			r.Fault("retransmission")
			continue
		}
		if n.Jitter > 0 && r.Chance(1, 4) {
			time.Sleep(time.Duration(1+r.Choose(1000)) * n.Jitter / 1000)
		}
		e := ev[n.pick(ev, &burst)]
		switch e.kind {
		case 0:
			if !e.nd.Created {
				n.create(e.nd)
			}
			n.start(e.nd)
		case 1:
			n.Flight = append(n.Flight[:e.i:e.i], n.Flight[e.i+1:]...)
			n.deliver(e.p)
		case 2:
			n.tick(e.nd)
		}
	}
}

func (n *Net) pick(ev []event, burst *int) int {
	r := n.r
	if len(ev) == 1 {
		return 0
	}
	switch n.Policy {
	case polFIFO:
		return 0
	case polLIFO:
		if r.Chance(1, 8) {
			return r.Choose(len(ev))
		}
		return len(ev) - 1
	case polStarve:
		var ok []int
		for i, e := range ev {
			if e.nd.Slot != n.Starve && (e.p == nil || e.p.From != n.Starve) {
				ok = append(ok, i)
			}
		}
		if len(ok) > 0 && !r.Chance(1, 40) {
			return ok[r.Choose(len(ok))]
		}
	case polLaterFirst:
		best, bt := -1, -1
		for i, e := range ev {
			t := 0
			if e.p != nil {
				t = int(e.p.Type)
			}
			if e.kind == 0 {
				t = 100 // everybody speaks first
			}
			if t > bt {
				best, bt = i, t
			}
		}
		if !r.Chance(1, 6) {
			return best
		}
	case polBurst:
		// run one node for a while
		var ok []int
		for i, e := range ev {
			if e.nd.Slot == *burst {
				ok = append(ok, i)
			}
		}
		if len(ok) > 0 && !r.Chance(1, 12) {
			return ok[r.Choose(len(ok))]
		}
		i := r.Choose(len(ev))
		*burst = ev[i].nd.Slot
		return i
	}
	return r.Choose(len(ev))
}

// ---- configurations

// genIDs draws n distinct identifiers, sorted.
func genIDs(r *Run, n int) []uint16 {
	set := map[uint16]bool{}
	var ids []uint16
	add := func(x int) {
		id := uint16(x)
		if id != 0 && !set[id] {
			set[id] = true
			ids = append(ids, id)
		}
	}
	switch r.Pick(4, 4, 2, 1) {
	case 0:
		for i := 1; i <= n; i++ {
			add(i)
		}
	case 1:
		for len(ids) < n {
			add(1 + r.Choose(65535))
		}
	case 2:
		ext := []int{1, 2, 255, 256, 257, 511, 512, 513, 32767, 32768, 32769, 65279, 65280, 65534, 65535}
		for len(ids) < n {
			if len(ids) < len(ext)-2 {
				add(ext[r.Choose(len(ext))])
			} else {
				add(1 + r.Choose(65535))
			}
		}
	case 3: // byte-swapped pairs
		for len(ids) < n {
			x := 1 + r.Choose(65535)
			add(x)
			if len(ids) < n {
				add(x>>8 | x<<8&0xff00)
			}
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// genN draws a committee size.
func genN(r *Run, lo int) int {
	n := 0
	switch r.Pick(120, 56, 20, 1) {
	case 0:
		n = 2 + r.Choose(4)
	case 1:
		n = 5 + r.Choose(4)
	case 2:
		n = 8 + r.Choose(6)
	case 3:
		n = 14 + r.Choose(16)
	}
	if n < lo {
		n = lo
	}
	return n
}

// genAttackN draws a committee size for sessions with adversaries.
func genAttackN(r *Run) int {
	switch r.Pick(24, 4, 1) {
	case 1:
		return 7 + r.Choose(6)
	case 2:
		return 12 + r.Choose(8)
	}
	return 2 + r.Choose(5)
}

// genT draws a threshold in 1..n-1.
func genT(r *Run, n int) int {
	switch r.Pick(2, 1, 1) {
	case 0:
		return 1 + r.Choose(n-1)
	case 1:
		return n - 1
	}
	return 1
}

// genSigners draws a subset of ids with at least lo members, sorted.
func genSigners(r *Run, ids []uint16, lo int) []uint16 {
	k := lo + r.Choose(len(ids)-lo+1)
	p := r.Perm(len(ids))[:k]
	sort.Ints(p)
	var s []uint16
	for _, i := range p {
		s = append(s, ids[i])
	}
	return s
}

func genMessage(r *Run) []byte {
	switch r.Pick(6, 1, 2, 2, 1, 1) {
	case 0:
		return r.Bytes(1 + r.Choose(64))
	case 1:
		if r.Chance(1, 2) {
			return nil
		}
		return []byte{}
	case 2:
		return r.Bytes(100 + r.Choose(1000))
	case 3:
		return r.Bytes([]int{31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256}[r.Choose(13)])
	case 4:
		return make([]byte, r.Choose(200))
	}
	n := 1 << (10 + r.Choose(8))
	if r.Chance(1, 30) {
		n = 1<<20 + r.Choose(1<<21)
	}
	if r.Chance(1, 2) {
		n -= r.Choose(n / 2)
	}
	return r.Bytes(n)
}

func genTimeout(r *Run) time.Duration {
	if r.Chance(1, 3) {
		return 10000 * time.Hour
	}
	return 0
}

func without(ids []uint16, x uint16) []uint16 {
	var r []uint16
	for _, id := range ids {
		if id != x {
			r = append(r, id)
		}
	}
	return r
}

func has(ids []uint16, x uint16) bool {
	for _, id := range ids {
		if id == x {
			return true
		}
	}
	return false
}

const tenHours = 10 * time.Hour

// finishByTimeout lets d pass.
func (n *Net) finishByTimeout(d time.Duration) {
	for _, nd := range n.Nodes {
		if !nd.Created && nd.Create != nil {
			n.create(nd)
		}
	}
	time.Sleep(d + time.Second)
	synctest.Wait()
	n.r.Event("time passes: %v", d)
}
