prop = 'C30'
needs = 'a share stored in its binary encoding by the earlier version and read by the new one, or the other way round'
breaks = 'the binary encoding of a share has the secret before the identifier, when written and when read'
edits = [
    ('pkg/eddsa/secret_share.go', '\tdata = append(data, sk.ID.Bytes()...)\n\tdata = append(data, sk.Secret.Bytes()...)\n', '\tdata = append(data, sk.Secret.Bytes()...)\n\tdata = append(data, sk.ID.Bytes()...)\n'),
    ('pkg/eddsa/secret_share.go', 'party.FromBytes(data); err', 'party.FromBytes(data[32:]); err'),
    ('pkg/eddsa/secret_share.go', '\tdata = data[party.IDByteSize:]\n', '\tdata = data[:32]\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	shares, _ := dealt(t, 1, ids(1, 2, 3))
	s := shares[2]
	b := append([]byte{0, 2}, s.Secret.Bytes()...)
	var got eddsa.SecretShare
	if err := got.UnmarshalBinary(b); err != nil || !got.Equal(s) {
		t.Fatalf("a stored share cannot be read any more: %v", err)
	}
	x, err := s.MarshalBinary()
	must(t, err)
	if !bytes.Equal(x, b) {
		t.Fatalf("the encoding is %x, was %x", x, b)
	}
}
'''
