prop = 'C26'
needs = 'more than 5000 refused messages in one session'
breaks = 'a participant in whose name many useless messages arrive is banned, so anybody who can send in its name keeps the session from finishing'
edits = [
    ('pkg/state/state.go', '\troundNumber int\n', '\troundNumber int\n\n\t// rejected counts the refused messages in the name of a party\n\trejected map[party.ID]int\n'),
    ('pkg/state/state.go', '\t\tdoneChan:         make(chan struct{}),\n', '\t\tdoneChan:         make(chan struct{}),\n\t\trejected:         make(map[party.ID]int),\n'),
    ('pkg/state/state.go', '\t// Check if we have already received a message of this type from this party.\n', '\t// Do not waste time on a party that floods us\n\tif s.rejected[senderID] > 5000 {\n\t\treturn s.wrapError(errors.New("too many useless messages"), senderID)\n\t}\n\ts.rejected[senderID]++\n\n\t// Check if we have already received a message of this type from this party.\n'),
    ('pkg/state/state.go', '\ts.ackMessage()\n', '\ts.rejected[senderID]--\n\ts.ackMessage()\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	for i := 0; i < 6000; i++ {
		x := dec(t, m[3][0])
		x.Type = messages.MessageTypeSign1
		x.KeyGen1, x.Sign1 = nil, &messages.Sign1{}
		if k.s[1].HandleMessage(x) == nil {
			t.Fatal("a message of another protocol was accepted")
		}
	}
	if err := k.s[1].HandleMessage(dec(t, m[3][0])); err != nil {
		t.Fatalf("after a flood in its name, the message of an honest party is refused: %v", err)
	}
}
'''
