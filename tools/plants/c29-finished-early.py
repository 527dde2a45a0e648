prop = 'C29'
needs = 'a party that has received the messages of its next rounds before it processes'
breaks = 'the messages of a call in which the session succeeds are not returned'
edits = [
    ('pkg/helpers/parties.go', '\tmsgsOut := s.ProcessAll()\n', '\tmsgsOut := s.ProcessAll()\n\tif s.IsFinished() && s.Err() == nil {\n\t\treturn nil, nil\n\t}\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	call := func(id party.ID, in ...[]byte) [][]byte {
		out, err := helpers.PartyRoutine(in, k.s[id])
		must(t, err)
		return out
	}
	a := call(1)
	b := call(2, a...)
	// 1 receives both messages of 2 in one batch
	if len(b) != 2 {
		t.Fatalf("%d messages", len(b))
	}
	c := call(1, b...)
	call(2, c...)
	allDone(t, k.s)
}
'''
