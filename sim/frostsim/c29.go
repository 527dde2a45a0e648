package main

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"

	"frostsim.local/sim/engine"
)

func init() {
	register(&Check{ID: "C29", Scenario: scenC29, Quick: 6000, Thorough: 120000, Real: realLib, Stub: stubNet,
		Rule: "one run drives the honest parties of a session, with or without cheaters, through the byte-level helper with batches of encoded messages in a random order, and a twin of each with the same randomness message by message"})
}

// byHelper is a party driven with helpers.PartyRoutine.
type byHelper struct {
	r        *Run
	net      *Net
	nd       *Node
	s, twin  *Sess
	single   *Sess // a second twin, asked to process after every message
	pend     [][]byte
	own      [][]byte
	kept     [][][]byte // what the helper returned, as it was returned
	copies   [][][]byte // and what it was
	sent     []string   // what the helper returned
	direct   []string   // what the twin emitted
	single1  []string   // what the second twin emitted
	noise    func() []byte
	batches  int
	refused  int
	attacked bool
}

// drive lets the helper drive the party of nd.
func drive(r *Run, net *Net, nd *Node) *byHelper {
	h := &byHelper{r: r, net: net, nd: nd}
	create := nd.Create
	nd.Create = func() {
		create()
		h.twin = nd.S
		h.twin.Label += "(direct)"
		create()
		h.single = nd.S
		h.single.Label += "(message by message)"
		create()
		h.s = nd.S
	}
	nd.Byz = func(nd *Node, p *Pkt) {
		if p == nil {
			h.call(h.take())
			return
		}
		h.pend = append(h.pend, p.Enc)
		if nd.Started && r.Chance(1, 3) {
			h.call(h.take())
		}
	}
	return h
}

// take makes a batch of what has arrived.
func (h *byHelper) take() [][]byte {
	r := h.r
	b := h.pend
	h.pend = nil
	if !h.nd.Started {
		return nil
	}
	if len(b) > 1 && r.Chance(1, 3) {
		// only the first ones
		k := 1 + r.Choose(len(b))
		h.pend = append(h.pend, b[k:]...)
		b = b[:k:k]
	}
	put := func(m []byte) {
		i := r.Choose(len(b) + 1)
		b = append(b[:i:i], append([][]byte{m}, b[i:]...)...)
	}
	// the commands hand everything to everybody
	if len(h.own) > 0 && r.Chance(1, 4) {
		put(h.own[r.Choose(len(h.own))])
	}
	if h.noise != nil && r.Chance(1, 4) {
		put(h.noise())
		r.Fault("noise-in-batch")
	}
	return b
}

func (h *byHelper) routine(batch [][]byte) (out [][]byte, err error) {
	in := make([][]byte, len(batch))
	for i, b := range batch {
		in[i] = append([]byte(nil), b...)
	}
	if len(in) == 0 && h.r.Chance(1, 2) {
		in = nil
	}
	h.s.do("PartyRoutine", func() { out, err = helpers.PartyRoutine(in, h.s.St) })
	for i, b := range batch {
		if !bytes.Equal(in[i], b) {
			h.r.Fail("input", "PartyRoutine changed the bytes of message %d of the batch given to %s", i, h.s.Label)
		}
		// the buffers are used for something else
		for j := range in[i] {
			in[i][j] = 0xa5
		}
	}
	h.batches++
	h.checkKept()
	for _, b := range out {
		h.sent = append(h.sent, string(b))
		c := append([]byte(nil), b...)
		if len(c) < 5 {
			h.r.Fail("encoding", "PartyRoutine returns a message of %d bytes for %s", len(c), h.s.Label)
		}
		h.own = append(h.own, c)
		h.net.SendEnc(h.nd.Slot, c, "")
	}
	var keep [][]byte
	for _, b := range out {
		keep = append(keep, append([]byte(nil), b...))
	}
	h.kept, h.copies = append(h.kept, out), append(h.copies, keep)
	h.checkKept()
	if i := h.r.Choose(len(h.kept)); len(h.kept[i]) > 0 && h.r.Chance(1, 2) {
		// the caller uses a returned message for something else
		j := h.r.Choose(len(h.kept[i]))
		b, n := h.kept[i][j], h.r.Choose(40)
		if h.r.Chance(1, 2) {
			for k := range b {
				b[k] ^= 0x3c
			}
			copy(h.copies[i][j], b)
		}
		b = append(b, make([]byte, n)...)
		for k := len(b) - n; k < len(b); k++ {
			b[k] = 0x3c
		}
		h.checkKept()
	}
	return out, err
}

// checkKept: the messages the helper returned stay as they were.
func (h *byHelper) checkKept() {
	for i, out := range h.kept {
		for j, b := range out {
			if !bytes.Equal(b, h.copies[i][j]) {
				h.r.Fail("overwritten", "message %d of %d that PartyRoutine returned for %s has changed since: it was %x and is %x", j, len(out), h.s.Label, h.copies[i][j], b)
			}
		}
	}
}

// feed gives the batch to the twin and says at which message it was refused, or -1.
func (h *byHelper) feed(batch [][]byte) int {
	for i, b := range batch {
		if h.twin.HandleBytes(b) != nil {
			return i
		}
	}
	for _, e := range h.twin.Process() {
		h.direct = append(h.direct, string(e.Enc))
	}
	return -1
}

// feedSingly gives the batch to the second twin.
func (h *byHelper) feedSingly(batch [][]byte) {
	for i := 0; i <= len(batch); i++ {
		if i < len(batch) {
			h.single.HandleBytes(batch[i])
		}
		for _, e := range h.single.Process() {
			h.single1 = append(h.single1, string(e.Enc))
		}
	}
}

func (h *byHelper) call(batch [][]byte) {
	r := h.r
	h.feedSingly(batch)
	at := h.feed(batch)
	_, err := h.routine(batch)
	r.Event("%s: batch of %d, refused %d, error %v", h.s.Label, len(batch), at, err != nil)
	r.Sched(9, h.nd.Slot, len(batch), at+1)
	st := h.twin.Status()
	if at >= 0 {
		h.refused++
		if err == nil {
			r.Fail("refusal", "message %d of a batch of %d is refused by the session, but PartyRoutine reports no error for %s", at, len(batch), h.s.Label)
		}
		// nothing of the batch is lost: what comes after the refused message is handed over again
		for _, b := range batch {
			one := [][]byte{b}
			k := h.feed(one)
			_, err := h.routine(one)
			if k >= 0 && err == nil && h.twin.Status() == running {
				r.Fail("refusal", "a message is refused by the session, but PartyRoutine reports no error for %s", h.s.Label)
			}
		}
		h.feed(nil)
		_, err = h.routine(nil)
		st = h.twin.Status()
	}
	sort.Strings(h.sent)
	sort.Strings(h.direct)
	if d := firstDiff(hexAll(h.direct), hexAll(h.sent)); d != "order" {
		r.Fail("messages", "%s (%s) handed out %d messages to a caller of its methods and %d to a caller of PartyRoutine (%s)", h.s.Label, st, len(h.direct), len(h.sent), d)
	}
	sort.Strings(h.single1)
	if d := firstDiff(hexAll(h.single1), hexAll(h.sent)); d != "order" {
		r.Fail("messages", "%s (%s) handed out %d messages when driven message by message and %d to a caller of PartyRoutine (%s)", h.s.Label, st, len(h.single1), len(h.sent), d)
	}
	if x := h.single.Status(); x != st {
		r.Fail("outcome", "%s is %s when driven by PartyRoutine and %s when driven message by message", h.s.Label, h.s.Describe(), h.single.Describe())
	}
	if x := h.s.Status(); x != st {
		r.Fail("outcome", "%s is %s when driven by PartyRoutine and %s when driven directly", h.s.Label, h.s.Describe(), h.twin.Describe())
	}
	if (err != nil) != (st == failed) {
		r.Fail("error", "%s is %s, but PartyRoutine returns the error %v", h.s.Label, h.s.Describe(), err)
	}
	if st == failed {
		a, b := h.s.Culprit(), h.twin.Culprit()
		if (a == 0) != (b == 0) || (a != b && !h.attacked) {
			r.Fail("culprit", "%s blames %d when driven by PartyRoutine and %d when driven directly", h.s.Label, a, b)
		}
	}
	if st == success && (h.s.OutputBytes() != h.twin.OutputBytes() || h.s.OutputBytes() != h.single.OutputBytes()) {
		r.Fail("output", "the output of %s differs from that of the session driven directly", h.s.Label)
	}
}

func hexAll(l []string) []string {
	var o []string
	for _, s := range l {
		o = append(o, fmt.Sprintf("%x", s))
	}
	return o
}

// crowdBatches hands a crowd's messages to one party in few, large batches.
func crowdBatches(r *Run) {
	s, me, in, canon := crowdInbox(r, kindKeygen+r.Choose(2))
	if canon[me].Status() != success {
		r.Discard("the session does not succeed when driven directly either")
	}
	x := s.create(r, me, 0, "")
	var sent []string
	call := func(batch [][]byte) {
		r.Event("batch of %d", len(batch))
		r.Sched(5, len(batch))
		var out [][]byte
		var err error
		x.do("PartyRoutine", func() { out, err = helpers.PartyRoutine(batch, x.St) })
		if err != nil {
			r.Fail("refused", "PartyRoutine fails on a batch of %d messages of honest parties: %v", len(batch), err)
		}
		for _, b := range out {
			sent = append(sent, fmt.Sprintf("%x", b))
		}
	}
	if r.Chance(1, 2) {
		call(nil)
	}
	if r.Chance(1, 2) {
		p := r.Perm(len(in))
		a := make([][]byte, len(in))
		for i, j := range p {
			a[i] = in[j]
		}
		in = a
	}
	for len(in) > 0 {
		k := []int{len(in), len(in) / 2, len(in) - 1, 1 + r.Choose(len(in))}[r.Choose(4)]
		k = max(k, 1)
		call(in[:k])
		in = in[k:]
	}
	if x.Status() != success {
		r.Fail("incomplete", "all messages of %d parties were handed to PartyRoutine but %s is %s", len(s.signers), x.Label, x.Describe())
	}
	sort.Strings(sent)
	if a := emissions(canon[me]); fmt.Sprint(a) != fmt.Sprint(sent) {
		r.Fail("emissions", "PartyRoutine returned %d messages that differ from the %d of the party driven directly (%s)", len(sent), len(a), firstDiff(a, sent))
	}
	if a, b := canon[me].OutputBytes(), x.OutputBytes(); a != b {
		r.Fail("output", "the output of %s differs from that of the party driven directly: %s / %s", x.Label, b, a)
	}
	r.Sample = fmt.Sprintf("%d parties, large batches: same messages and output", len(s.signers))
}

func scenC29(r *Run) {
	if r.Chance(1, 150) {
		crowdBatches(r)
		return
	}
	var net *Net
	var ses *session
	kind := r.Pick(6, 2, 2)
	var honest []uint16
	switch kind {
	case 0:
		ses = genSession(r, 9)
		net = ses.net(r, func() time.Duration { return genTimeout(r) })
		honest = ses.signers
	case 1:
		a := genKgAttack(r, false)
		net, honest = a.net, a.honest
	case 2:
		a := genSgAttack(r, func(n, t int) int { return t + 1 }, false)
		a.describe(r)
		net, honest = a.net, a.honest
	}
	net.Configure()
	lossy := r.Chance(1, 8)
	wait := time.Duration(0)
	if lossy {
		wait = time.Duration(1+r.Choose(100)) * time.Minute
		createTimeout = &wait
		defer func() { createTimeout = nil }()
		net.Jitter = 0
	}
	var hs []*byHelper
	for _, nd := range net.Nodes {
		if nd.Create == nil {
			continue
		}
		h := drive(r, net, nd)
		h.attacked = kind > 0
		if kind == 0 && r.Chance(1, 3) {
			id := nd.ID
			good := func() (l [][]byte) {
				for _, p := range nd.Heard {
					l = append(l, p.Enc)
				}
				return
			}
			h.noise = func() []byte {
				switch g := good(); r.Choose(4) {
				case 0:
					if len(g) > 0 {
						return g[r.Choose(len(g))]
					}
				case 1:
					if len(g) > 0 {
						b, _ := damage(r, g[r.Choose(len(g))])
						// only what does not decode: another valid message would be another execution
						if !decodes(b) {
							return b
						}
					}
				case 2:
					return r.Bytes(r.Choose(5))
				}
				b, _ := ses.noise(r, id, r.Choose(1<<16))
				return b
			}
		}
		hs = append(hs, h)
	}
	flush := func() bool {
		again := false
		for _, h := range hs {
			for h.nd.Started && len(h.pend) > 0 {
				h.call(h.take())
				again = true
			}
		}
		return again
	}
	for {
		net.Run(nil)
		if lossy && len(net.Flight) == 0 && r.Chance(1, 3) {
			for _, h := range hs {
				if len(h.pend) > 0 && r.Chance(1, 2) {
					h.pend = nil
					r.Fault("lost-for-ever")
				}
			}
		}
		if !flush() {
			break
		}
	}
	for _, h := range hs {
		if h.twin.Status() == running && lossy {
			net.finishByTimeout(wait)
			break
		}
	}
	ends := map[string]int{}
	for _, h := range hs {
		// further calls repeat the outcome
		for i := 0; i < 2; i++ {
			h.call(nil)
		}
		st := h.s.Status()
		ends[st]++
		if kind == 0 && !lossy && st != success {
			if h.twin.Status() != success {
				r.Discard("the session does not succeed when driven directly either")
			}
			r.Fail("incomplete", "all messages were handed to PartyRoutine but %s is %s", h.s.Label, h.s.Describe())
		}
	}
	r.Note(fmt.Sprintf("kind:%d", kind))
	for st := range ends {
		r.Note("end:" + st)
	}
	nb, nr := 0, 0
	for _, h := range hs {
		nb += h.batches
		nr += h.refused
	}
	if nr > 0 {
		r.Note("refused-in-batch")
	}
	r.Sample = fmt.Sprintf("honest=%v driven by the helper in %d batches, %d of them with a refused message: %v", honest, nb, nr, ends)
}

func decodes(b []byte) bool {
	ok := false
	engine.Guard(func() {
		m := new(messages.Message)
		ok = m.UnmarshalBinary(append([]byte(nil), b...)) == nil
	})
	return ok
}
