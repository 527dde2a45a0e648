prop = 'C29'
needs = 'a caller that keeps the messages of one call of the helper while making the next one'
breaks = 'the messages returned by several calls share one buffer'
edits = [
    ('pkg/helpers/parties.go', '\t\tif b, err := msgOut.MarshalBinary(); err == nil {\n', '\t\tif b, err := msgOut.BytesAppend(scratch[:0]); err == nil {\n\t\t\tif scratch = b[len(b):]; cap(scratch) < 256 {\n\t\t\t\tscratch = make([]byte, 0, 4096)\n\t\t\t}\n'),
    ('pkg/helpers/parties.go', 'func PartyRoutine(', '// scratch is where messages are encoded.\nvar scratch = make([]byte, 0, 4096)\n\nfunc PartyRoutine('),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	a, err := helpers.PartyRoutine(nil, k.s[1])
	must(t, err)
	b, err := helpers.PartyRoutine(nil, k.s[2])
	must(t, err)
	keep := append([]byte(nil), b[0]...)
	// a frame around the first message
	_ = append(a[0], "end of the message"...)
	if !bytes.Equal(keep, b[0]) {
		t.Fatal("a message returned for another session has changed")
	}
}
'''
