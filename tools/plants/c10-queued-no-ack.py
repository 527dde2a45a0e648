prop = 'C10'
needs = 'only early messages arriving for longer than the timeout'
breaks = 'a message accepted for a later round does not extend the deadline'
edits = [
    ('pkg/state/state.go', '\ts.ackMessage()\n\n\tif msg.Type == s.acceptedTypes[0] {\n\t\ts.receivedMessages', '\tif msg.Type == s.acceptedTypes[0] {\n\t\ts.ackMessage()\n\t\ts.receivedMessages'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	give(t, k.s, set, m)
	m2 := step(t, k.s, set)
	z, _, err := frost.NewKeygenState(1, set, 1, 2000*time.Millisecond)
	must(t, err)
	for _, b := range append(append([][]byte{m[2][0], m[3][0]}, m2[2]...), m2[3]...) {
		x := dec(t, b)
		if x.To != 0 && x.To != 1 {
			continue
		}
		time.Sleep(1200 * time.Millisecond)
		if err := z.HandleMessage(x); err != nil {
			t.Fatal(err)
		}
	}
}
'''
