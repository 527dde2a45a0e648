prop = 'C16'
needs = 'a transport that changes the bytes of an encoded message in place before it is encoded again'
breaks = 'the encoding is cached and handed out itself'
edits = [
    ('pkg/messages/messages.go', '\tbuf := make([]byte, 0, m.Size())\n\treturn m.BytesAppend(buf)', '\tif m.encoded == nil {\n\t\tvar err error\n\t\tif m.encoded, err = m.BytesAppend(make([]byte, 0, m.Size())); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\treturn m.encoded, nil'),
    ('pkg/messages/messages.go', '\tSign2   *Sign2\n}', '\tSign2   *Sign2\n\n\t// encoded is the result of MarshalBinary, which is needed again for every retransmission\n\tencoded []byte\n}'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	m := k.s[1].ProcessAll()[0]
	a, err := m.MarshalBinary()
	must(t, err)
	c := append([]byte(nil), a...)
	for i := range a {
		a[i] ^= 0x55 // the transport encrypts in place
	}
	a, err = m.MarshalBinary()
	must(t, err)
	if !bytes.Equal(a, c) {
		t.Fatal("the encoding of a message changed")
	}
}
'''
