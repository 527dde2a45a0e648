prop = 'C04'
needs = 'a message from the party itself or for somebody else that arrives after the session has finished'
breaks = 'a finished session silently accepts it instead of refusing it'
edits = [
    ('pkg/state/state.go', '\tif s.done {\n\t\treturn s.wrapError(errors.New("protocol already finished"), senderID)\n\t}\n\n\tif len(s.acceptedTypes) == 0 {\n\t\treturn s.wrapError(errors.New("no more messages being accepted"), senderID)\n\t}\n\n\t// Ignore messages from self\n\tif senderID == s.round.SelfID() {\n\t\treturn nil\n\t}\n\n\t// Ignore message not addressed to us\n\tif !msg.IsBroadcast() && msg.To != s.round.SelfID() {\n\t\treturn nil\n\t}\n', '\t// Ignore messages from self\n\tif senderID == s.round.SelfID() {\n\t\treturn nil\n\t}\n\n\t// Ignore message not addressed to us\n\tif !msg.IsBroadcast() && msg.To != s.round.SelfID() {\n\t\treturn nil\n\t}\n\n\tif s.done {\n\t\treturn s.wrapError(errors.New("protocol already finished"), senderID)\n\t}\n\n\tif len(s.acceptedTypes) == 0 {\n\t\treturn s.wrapError(errors.New("no more messages being accepted"), senderID)\n\t}\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	give(t, k.s, set, m)
	give(t, k.s, set, step(t, k.s, set))
	step(t, k.s, set)
	allDone(t, k.s)
	if k.s[1].HandleMessage(dec(t, m[1][0])) == nil {
		t.Fatal("a finished session accepted a message")
	}
}
'''
