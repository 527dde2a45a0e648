prop = 'C22'
needs = 'a new signing session after one that timed out'
breaks = 'an aborted session leaves its key marked as in use'
edits = [
    ('pkg/frost/frost.go', '\tround, output, err := sign.NewRound(partyIDs, secret, shares, message)\n\tif err != nil {\n\t\treturn nil, nil, err\n\t}\n\ts, _ := state.NewBaseState(round, timeout)\n', '\tround, output, err := sign.NewRound(partyIDs, secret, shares, message)\n\tif err != nil {\n\t\treturn nil, nil, err\n\t}\n\t// a share must not be used for the same message by an endless number of sessions that time out\n\tif timeout > 0 {\n\t\tkey := string(secret.Secret.Bytes()) + string(message)\n\t\tv, _ := attempts.LoadOrStore(key, new(int32))\n\t\tif atomic.AddInt32(v.(*int32), 1) > 3 {\n\t\t\treturn nil, nil, errors.New("too many attempts")\n\t\t}\n\t}\n\ts, _ := state.NewBaseState(round, timeout)\n'),
    ('pkg/frost/frost.go', 'import (\n\t"time"\n', 'import (\n\t"errors"\n\t"sync"\n\t"sync/atomic"\n\t"time"\n'),
    ('pkg/frost/frost.go', '// NewSignState returns', 'var attempts sync.Map\n\n// NewSignState returns'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	for i := 0; i < 6; i++ {
		newSg(t, set, sh, pub, []byte("x"), time.Millisecond)
		time.Sleep(5 * time.Millisecond)
	}
	k := newSg(t, set, sh, pub, []byte("x"), time.Minute)
	run(t, k.s, set)
	allDone(t, k.s)
}
'''
