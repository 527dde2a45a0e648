prop = 'C10'
needs = 'a refused message shortly before the deadline'
breaks = 'a duplicate or foreign message extends the deadline'
edits = [
    ('pkg/state/state.go', '\ts.ackMessage()\n\n\tif msg.Type', '\tif msg.Type'),
    ('pkg/state/state.go', '\t// Is the sender in our list of participants?\n', '\ts.ackMessage()\n\n\t// Is the sender in our list of participants?\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 300*time.Millisecond)
	m := step(t, k.s, set)
	for i := 0; i < 10; i++ {
		time.Sleep(60 * time.Millisecond)
		_ = k.s[1].HandleMessage(dec(t, m[2][0]))
	}
	if !k.s[1].IsFinished() {
		t.Fatal("duplicates keep a stalled session alive")
	}
}
'''
