prop = 'C04'
needs = 'a second message for a later round from a sender whose first is already queued'
breaks = 'a repetition of a queued message is passed over without an error, so the caller takes the second message for accepted'
edits = [
    ('pkg/state/state.go', '\t// Check if we have already received a message of this type from this party.\n', '\t// Of the messages for later rounds, the first is kept\n\tfor _, queued := range s.queue {\n\t\tif queued.From == senderID && queued.Type == msg.Type {\n\t\t\treturn nil\n\t\t}\n\t}\n\n\t// Check if we have already received a message of this type from this party.\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	for _, to := range set {
		for _, from := range set {
			if from != to && !(to == 1 && from == 3) {
				must(t, k.s[to].HandleMessage(dec(t, m[from][0])))
			}
		}
	}
	// party 1 still waits for party 3, party 2 is ahead
	var early []byte
	for _, x := range k.s[2].ProcessAll() {
		if x.To == 1 {
			early, _ = x.MarshalBinary()
		}
	}
	must(t, k.s[1].HandleMessage(dec(t, early)))
	x := dec(t, early)
	x.KeyGen2.Share.Add(&x.KeyGen2.Share, scalar.NewScalarUInt32(1))
	if k.s[1].HandleMessage(x) == nil {
		t.Fatal("a second, conflicting message was taken without an error")
	}
}
'''
