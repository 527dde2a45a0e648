prop = 'C02'
needs = 'a message longer than 65535 bytes'
breaks = 'the challenge covers only the first 65535 bytes of the message, so that a standard verifier refuses the signature'
edits = [
    ('pkg/eddsa/signature.go', '\tdata = append(data, message...)\n', '\tif len(message) > 1<<16-1 {\n\t\tmessage = message[:1<<16-1]\n\t}\n\tdata = append(data, message...)\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	msg := make([]byte, 70000)
	k := newSg(t, set, sh, pub, msg, 0)
	run(t, k.s, set)
	allDone(t, k.s)
	if !ed25519.Verify(pub.GroupKey.ToEd25519(), msg, k.out[1].Signature.ToEd25519()) {
		t.Fatal("signature refused")
	}
}
'''
