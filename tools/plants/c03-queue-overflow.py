prop = 'C03'
needs = 'messages of both later rounds of several parties arriving before the first step'
breaks = 'a queue longer than the number of parties drops the next early message, which is never asked for again'
edits = [
    ('pkg/state/state.go', '\t\ts.queue = append(s.queue, msg)\n', '\t\tif len(s.queue) < cap(s.queue) {\n\t\t\ts.queue = append(s.queue, msg)\n\t\t}\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 2, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	late := k.s[1]
	others := ids(2, 3)
	m1 := step(t, k.s, others)
	m1[1] = nil
	b := late.ProcessAll()
	_ = b
	// the first party has started but sees nothing until the others have everything
	m1[1] = [][]byte{enc(t, b[0])}
	for _, to := range others {
		for _, from := range set {
			if from != to {
				must(t, k.s[to].HandleMessage(dec(t, m1[from][0])))
			}
		}
	}
	m2 := step(t, k.s, others)
	_ = m2
	// a fourth session with the same material starts late: everything is queued before its first step
	z, _, err := frost.NewSignState(set, sh[1], pub, []byte("x"), 0)
	must(t, err)
	for _, m := range [][]byte{m1[2][0], m1[3][0], m2[2][0], m2[3][0]} {
		must(t, z.HandleMessage(dec(t, m)))
	}
	z.ProcessAll()
	for _, m := range [][]byte{m2[3][0], m2[2][0]} {
		if z.HandleMessage(dec(t, m)) == nil && !z.IsFinished() {
			t.Fatal("a message delivered before the first step was lost")
		}
	}
}
'''
