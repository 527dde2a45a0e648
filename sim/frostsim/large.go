package main

import (
	"fmt"
)

// Large committees, of parties of the library only. All of them take part, but only a few are followed to the end: the
// others stop after their last emission, which spares the quadratic cost of the last round.

// genLarge draws a committee beyond what one byte can count.
func genLarge(r *Run, cheap bool) (ids []uint16, t int) {
	n := 250 + r.Choose(14)
	if r.Chance(1, 2) {
		n = 256 + r.Choose(3)
	}
	ids = genIDs(r, n)
	t = 1 + r.Choose(3)
	if cheap && r.Chance(1, 2) {
		t = n - 1 - r.Choose(2)
	}
	return
}

// runLarge executes the sessions, followed of them to the end.
func runLarge(r *Run, ss []*Sess, followed int) []*Sess {
	var end []*Sess
	for _, i := range r.Perm(len(ss))[:followed] {
		end = append(end, ss[i])
	}
	round := func(src, dst []*Sess, last bool) {
		type msg struct {
			from *Sess
			to   uint16
			b    []byte
		}
		var q []msg
		for _, s := range src {
			for _, e := range s.Process() {
				q = append(q, msg{s, e.To, e.Enc})
			}
		}
		for _, s := range dst {
			for _, i := range r.Perm(len(q)) {
				if m := q[i]; m.from != s && (m.to == 0 || m.to == s.ID) {
					s.HandleBytes(m.b)
					if r.Chance(1, 50) {
						r.Fault("duplicate")
						s.HandleBytes(m.b)
					}
				}
			}
			if last {
				s.Process()
			}
		}
	}
	round(ss, ss, false)
	round(ss, end, true)
	for _, s := range end {
		if s.Status() != success {
			r.Fail("incomplete", "all messages of %d parties were delivered but %s is %s", len(ss), s.Label, s.Describe())
		}
	}
	return end
}

func largeKeygen(r *Run) {
	ids, t := genLarge(r, false)
	r.Event("keygen of %d parties, t=%d", len(ids), t)
	r.Note(fmt.Sprintf("large:%d+", len(ids)/50*50))
	var ss []*Sess
	for _, id := range ids {
		s := NewKeygen(r, fmt.Sprintf("kg/%d", id), id, ids, t, genTimeout(r), stream(r, fmt.Sprintf("kg/%d", id)))
		if s.CreateErr != nil {
			r.Fail("refused", "a key generation of %d parties with threshold %d is refused: %v", len(ids), t, s.CreateErr)
		}
		ss = append(ss, s)
	}
	end := runLarge(r, ss, 2)
	checkKeygenAgreement(r, end, ids, t, false)
	r.Sample = fmt.Sprintf("keygen n=%d t=%d: agreed", len(ids), t)
}

func largeSign(r *Run) {
	ids, t := genLarge(r, true)
	k := DealKey(r, "", ids, t)
	msg := genMessage(r)
	if len(msg) > 300 {
		msg = msg[:300]
	}
	r.Event("sign with %d parties, t=%d, message of %d bytes", len(ids), t, len(msg))
	r.Note(fmt.Sprintf("large:%d+", len(ids)/50*50))
	var ss []*Sess
	for _, id := range ids {
		s := NewSign(r, fmt.Sprintf("sg/%d", id), ids, k.Shares[id], k.Public, msg, genTimeout(r), stream(r, fmt.Sprintf("sg/%d", id)))
		if s.CreateErr != nil {
			r.Fail("refused", "a session of %d signers with threshold %d is refused: %v", len(ids), t, s.CreateErr)
		}
		ss = append(ss, s)
	}
	end := runLarge(r, ss, 2)
	for _, s := range end {
		checkSignature(r, s, k.Group, k.Public.GroupKey, msg)
	}
	if a, b := end[0].OutputBytes(), end[1].OutputBytes(); a != b {
		r.Fail("disagree", "%s and %s output different signatures", end[0].Label, end[1].Label)
	}
	r.Sample = fmt.Sprintf("signing with %d signers, t=%d: one valid signature", len(ids), t)
}
