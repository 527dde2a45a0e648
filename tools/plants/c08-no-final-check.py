prop = 'C08'
needs = 'a session with too few signers'
breaks = 'the complete signature is not verified, because every share was'
edits = [
    ('pkg/frost/sign/round2.go', '\tif !round.GroupKey.Verify(round.Message, sig) {\n', '\tif len(round.Message) == 0 && !round.GroupKey.Verify(round.Message, sig) {\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 2, set)
	few := ids(1, 2)
	k := newSg(t, few, sh, pub, []byte("x"), 0)
	run(t, k.s, few)
	if k.s[1].IsFinished() && k.s[1].Err() == nil {
		t.Fatal("too few signers report success")
	}
}
'''
