prop = 'C29'
needs = 'a batch in which a message is repeated'
breaks = 'messages after a repeated one are dropped without an error'
edits = [
    ('pkg/helpers/parties.go', '\t\t\treturn nil, fmt.Errorf("failed to handle message: %w", err)\n', '\t\t\tif !s.IsFinished() && msgTmp.From != 0 {\n\t\t\t\t// most likely a repetition\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn nil, fmt.Errorf("failed to handle message: %w", err)\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	m := map[party.ID][]byte{}
	for _, id := range set {
		out, err := helpers.PartyRoutine(nil, k.s[id])
		must(t, err)
		m[id] = out[0]
	}
	out, err := helpers.PartyRoutine([][]byte{m[2], m[2], m[3]}, k.s[1])
	if err == nil && len(out) == 0 {
		t.Fatal("a message is lost without an error")
	}
}
'''
