prop = 'C26'
needs = 'a session that is dropped before it has finished'
breaks = 'a goroutine waits for the end of every session'
edits = [
    ('pkg/state/state.go', '\tfor _, id := range round.PartyIDs() {\n\t\tif id != round.SelfID() {\n\t\t\ts.receivedMessages[id] = nil\n\t\t}\n\t}\n\n\treturn s, nil\n', '\tfor _, id := range round.PartyIDs() {\n\t\tif id != round.SelfID() {\n\t\t\ts.receivedMessages[id] = nil\n\t\t}\n\t}\n\n\t// messages that were not used are of no interest after the end\n\tgo func() {\n\t\t<-s.Done()\n\t\ts.mtx.Lock()\n\t\ts.queue = nil\n\t\ts.mtx.Unlock()\n\t}()\n\n\treturn s, nil\n'),
]
demo = r'''
package zzdemo

import "testing"
import (
	"runtime"
	"time"
)
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	n := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		newSg(t, set, sh, pub, []byte("x"), 0)
	}
	time.Sleep(50 * time.Millisecond)
	runtime.GC()
	if g := runtime.NumGoroutine(); g > n+100 {
		t.Fatalf("%d goroutines remain", g)
	}
}
'''
