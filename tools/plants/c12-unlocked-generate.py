prop = 'C12'
needs = 'a repeated message that is delivered while another goroutine computes the next messages'
breaks = 'the lock is not held while the messages of the next round are computed'
edits = [
    ('pkg/state/state.go', '\tnewMessages, err := s.round.GenerateMessages()\n', '\t// This is slow, and other callers need not wait for it\n\ts.mtx.Unlock()\n\tnewMessages, err := s.round.GenerateMessages()\n\ts.mtx.Lock()\n'),
]
demo = r'''
package zzdemo

import "testing"
import "time"
func TestDemo(t *testing.T) {
	set := helpers.GenerateSet(30)
	sh, pub := dealt(t, 20, set)
	for i := 0; i < 20; i++ {
		k := newSg(t, set, sh, pub, []byte("x"), 0)
		m := step(t, k.s, set)
		for _, id := range set[1:] {
			must(t, k.s[1].HandleMessage(dec(t, m[id][0])))
		}
		done := make(chan int)
		go func() { k.s[1].ProcessAll(); close(done) }()
		for j, end := 0, false; !end; j++ {
			select {
			case <-done:
				end = true
			default:
			}
			if k.s[1].HandleMessage(dec(t, m[2][0])) == nil {
				t.Fatal("a repeated message was accepted")
			}
			time.Sleep(time.Microsecond)
		}
	}
}
'''
