prop = 'C13'
needs = 'more than 512 signing sessions in one process'
breaks = 'nonces are drawn ahead in blocks, and the position in the block wraps around without a new block being drawn'
edits = [
    ('pkg/frost/sign/round0.go', 'import (\n', 'import (\n\t"sync"\n\n\t"github.com/taurusgroup/frost-ed25519/pkg/ristretto"\n'),
    ('pkg/frost/sign/round0.go', '\tscalar.SetScalarRandom(&round.e)\n', '\tround.e.Set(nextNonce())\n'),
    ('pkg/frost/sign/round0.go', 'func (round *round0) NextRound() state.Round {\n', '// nonces drawn ahead, so that the first round needs no system call\nvar nonces struct {\n\tsync.Mutex\n\tblock [512]*ristretto.Scalar\n\tnext  int\n}\n\n// nextNonce returns the next nonce of the block.\nfunc nextNonce() *ristretto.Scalar {\n\tnonces.Lock()\n\tdefer nonces.Unlock()\n\ti := nonces.next % len(nonces.block)\n\tnonces.next++\n\tif nonces.block[i] == nil {\n\t\tnonces.block[i] = scalar.NewScalarRandom()\n\t}\n\treturn nonces.block[i]\n}\n\nfunc (round *round0) NextRound() state.Round {\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	shares, pub := dealt(t, 1, set)
	seen := map[string]int{}
	for i := 0; i < 600; i++ {
		s := newSg(t, set, shares, pub, []byte("message"), 0)
		m := step(t, s.s, set)
		e := string(m[1][0][37:69])
		if j, ok := seen[e]; ok {
			t.Fatalf("session %d commits to the nonce of session %d", i, j)
		}
		seen[e] = i
	}
}
'''
