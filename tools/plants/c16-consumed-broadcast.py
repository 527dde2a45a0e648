prop = 'C16'
needs = 'one broadcast object handed to two receivers'
breaks = 'the first receiver wipes the signature share in the shared object'
edits = [
    ('pkg/frost/sign/round2.go', '\totherParty.Zi.Set(&msg.Sign2.Zi)\n', '\totherParty.Zi.Set(&msg.Sign2.Zi)\n\n\t// We can reset the share in the message now\n\tmsg.Sign2.Zi.Set(ristretto.NewScalar())\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 2, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	give(t, k.s, set, step(t, k.s, set))
	var all []*messages.Message
	for _, id := range set {
		all = append(all, k.s[id].ProcessAll()...)
	}
	for _, id := range set {
		for _, m := range all {
			must(t, k.s[id].HandleMessage(m))
		}
		k.s[id].ProcessAll()
	}
	allDone(t, k.s)
}
'''
