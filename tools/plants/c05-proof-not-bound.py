prop = 'C05'
needs = 'a participant that replays the proof and commitments of another whose identifier has the same high byte'
breaks = 'the proof of knowledge is bound only to the high byte of the identifier'
edits = [
    ('pkg/internal/zk/schnorr.go', 'h.Write(partyID.Bytes())', 'h.Write(partyID.Bytes()[:1])'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	stolen := append([]byte(nil), m[1][0]...)
	stolen[2] = 3 // from party 3
	must(t, k.s[2].HandleMessage(dec(t, m[1][0])))
	must(t, k.s[2].HandleMessage(dec(t, stolen)))
	k.s[2].ProcessAll()
	if !k.s[2].IsFinished() {
		t.Fatal("the stolen proof was accepted")
	}
}
'''
