prop = 'C12'
needs = 'a message delivered while another goroutine advances the session to the next round'
breaks = 'the decision where to store a message is taken before the lock is given up and taken again'
edits = [
    ('pkg/state/state.go', '\ts.ackMessage()\n\n\tif msg.Type == s.acceptedTypes[0] {', '\ts.ackMessage()\n\tcurrent := msg.Type == s.acceptedTypes[0]\n\n\t// The content can be checked without holding up other callers\n\ts.mtx.Unlock()\n\t_, err := msg.MarshalBinary()\n\ts.mtx.Lock()\n\tif err != nil {\n\t\treturn s.wrapError(err, senderID)\n\t}\n\n\tif current {'),
]
demo = r'''
package zzdemo

import "testing"
import "sync"
func TestDemo(t *testing.T) {
	set := helpers.GenerateSet(50)
	for i := 0; i < 300; i++ {
		k := newKg(t, set, 40, 0)
		m := step(t, k.s, ids(2))
		k.s[1].ProcessAll()
		a, b := dec(t, m[2][0]), dec(t, m[2][0])
		var wg sync.WaitGroup
		var e1, e2 error
		start := make(chan int)
		wg.Add(2)
		go func() { <-start; e1 = k.s[1].HandleMessage(a); wg.Done() }()
		go func() { <-start; e2 = k.s[1].HandleMessage(b); wg.Done() }()
		close(start)
		wg.Wait()
		if e1 == nil && e2 == nil {
			t.Fatal("both copies were accepted")
		}
	}
}
'''
