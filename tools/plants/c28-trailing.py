prop = 'C28'
needs = 'a signature followed by other bytes'
breaks = 'bytes after a signature are ignored'
edits = [
    ('pkg/eddsa/signature.go', 'sig.S.SetCanonicalBytes(data[32:])', 'sig.S.SetCanonicalBytes(data[32:MessageLengthSig])'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	run(t, k.s, set)
	b, err := k.out[1].Signature.MarshalBinary()
	must(t, err)
	var s eddsa.Signature
	must(t, s.UnmarshalBinary(b))
	if s.UnmarshalBinary(append(b, 0)) == nil {
		t.Fatal("a longer signature is accepted")
	}
}
'''
