prop = 'C26'
needs = 'many refused messages'
breaks = 'refused messages of participants are kept as evidence'
edits = [
    ('pkg/state/state.go', '\t\treturn s.wrapError(errors.New("message from this party was already received"), senderID)\n', '\t\t// keep the proof that the party has sent more than one message\n\t\ts.repeated = append(s.repeated, msg)\n\t\treturn s.wrapError(errors.New("message from this party was already received"), senderID)\n'),
    ('pkg/state/state.go', '\tqueue            []*messages.Message\n', '\tqueue            []*messages.Message\n\trepeated         []*messages.Message\n'),
]
demo = r'''
package zzdemo

import "testing"
import "runtime"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	m := step(t, k.s, set)
	must(t, k.s[1].HandleMessage(dec(t, m[2][0])))
	var a, z runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 50000; i++ {
		_ = k.s[1].HandleMessage(dec(t, m[2][0]))
	}
	runtime.GC()
	runtime.ReadMemStats(&z)
	if z.HeapAlloc > a.HeapAlloc+5000000 {
		t.Fatalf("%d bytes are kept", z.HeapAlloc-a.HeapAlloc)
	}
	runtime.KeepAlive(k)
}
'''
