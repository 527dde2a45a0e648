package main

import (
	"fmt"
	"sort"
)

func init() {
	register(&Check{ID: "C25", Scenario: scenC25, Quick: 5000, Thorough: 80000, Real: realLib, Stub: stubNet + "; dishonest participants are simulated with an independent implementation",
		Rule: "one run repeats a key generation or a signing session with cheaters, every time without the participants that honest parties have blamed, until it succeeds; the cheaters choose new offences every time"})
}

// scenC25: honest parties make progress by excluding those they blame.
func scenC25(r *Run) {
	keygen := r.Chance(1, 2)
	n := genAttackN(r)
	if n < 3 {
		n = 3
	}
	all := genIDs(r, n)
	t := 1 + r.Choose(n-2)
	if r.Chance(1, 2) {
		t = 1 + r.Choose(max(1, (n-1)/2))
	}
	nb := 1 + r.Choose(n-t-1)
	var bad []uint16
	for _, i := range r.Perm(n)[:nb] {
		bad = append(bad, all[i])
	}
	r.Event("keygen=%v ids=%v t=%d cheaters=%v", keygen, all, t, bad)
	var k *SKey
	if !keygen {
		k = DealKey(r, "", all, t)
	}
	msg := genMessage(r)
	left := all
	failures := 0
	for {
		tag := fmt.Sprintf(" attempt %d", failures)
		var now []uint16
		for _, id := range bad {
			if has(left, id) {
				now = append(now, id)
			}
		}
		var net *Net
		var honest []uint16
		silent := map[uint16]bool{}
		if keygen {
			a := kgAttackOf(r, left, t, now, nil, false, tag)
			net, honest = a.net, a.honest
			net.Configure()
			net.Run(nil)
			for _, b := range a.byz {
				silent[b.id] = !b.spoke || !b.shared
			}
		} else {
			a := sgAttackOf(r, k, left, now, nil, msg, r.Chance(1, 2), tag)
			a.describe(r)
			net, honest = a.net, a.honest
			net.Configure()
			net.Run(nil)
			for _, b := range a.byz {
				silent[b.id] = !b.signed
			}
		}
		var ok []*Sess
		blamed := map[uint16]bool{}
		stuck := false
		for _, nd := range net.Nodes {
			if nd.S == nil || !has(honest, nd.ID) {
				continue
			}
			switch nd.S.Status() {
			case success:
				ok = append(ok, nd.S)
			case failed:
				c := nd.S.Culprit()
				if !has(now, c) {
					r.Fail("excluded-honest", "%s blames %d, who is none of the cheaters %v: the honest parties cannot go on (%v)", nd.S.Label, c, now, nd.S.Err())
				}
				blamed[c] = true
			default:
				stuck = true
			}
		}
		if len(ok) == len(honest) {
			if keygen {
				checkKeygenAgreement(r, ok, left, t, true)
				// the honest parties can use the key
				var ss []*Sess
				sg := pickIDs(r, honest, t+1)
				sort.Slice(sg, func(i, j int) bool { return sg[i] < sg[j] })
				for _, s := range ok {
					if has(sg, s.ID) {
						ss = append(ss, NewSign(r, fmt.Sprintf("sg/%d", s.ID), sg, s.KG.SecretKey, s.KG.Public, msg, 0, stream(r, fmt.Sprintf("final/%d", s.ID))))
					}
				}
				for _, s := range ss {
					if s.CreateErr != nil {
						r.Fail("unusable", "%s is refused: %v", s.Label, s.CreateErr)
					}
				}
				lockstep(r, ss)
				for _, s := range ss {
					if s.Status() != success {
						r.Fail("unusable", "the honest parties cannot use the key generated after %d failed attempts: %s", failures, s.Describe())
					}
					checkSignature(r, s, keyPt(r, ok[0].KG.Public.GroupKey), ok[0].KG.Public.GroupKey, msg)
				}
			} else {
				sig := ""
				for _, s := range ok {
					checkSignature(r, s, k.Group, k.Public.GroupKey, msg)
					if x := s.OutputBytes(); sig == "" {
						sig = x
					} else if x != sig {
						r.Fail("disagree", "the honest signers hold different signatures after %d failed attempts", failures)
					}
				}
			}
			break
		}
		failures++
		if len(blamed) == 0 && stuck {
			// nobody is blamed because a cheater keeps silent, which is for the timeout to end
			for id := range silent {
				if silent[id] {
					blamed[id] = true
					r.Fault("silent-cheater")
				}
			}
		}
		if len(blamed) == 0 {
			r.Fail("no-progress", "attempt %d of %v failed without anybody to exclude", failures, left)
		}
		var next []uint16
		for _, id := range left {
			if !blamed[id] {
				next = append(next, id)
			}
		}
		r.Event("attempt %d: excluded %v", failures, keysOf(blamed))
		left = next
		if failures > nb {
			r.Fail("no-progress", "%d attempts failed although there are only %d cheaters", failures, nb)
		}
	}
	r.Note(fmt.Sprintf("failed-attempts:%d", failures))
	r.Trivial = failures == 0
	r.Sample = fmt.Sprintf("keygen=%v ids=%v t=%d cheaters=%v: success after %d failed attempts", keygen, all, t, bad, failures)
}
