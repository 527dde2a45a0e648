prop = 'C17'
needs = 'two sessions of one process with different signer lists of the same size and the same ends'
breaks = 'interpolation coefficients are cached under an incomplete key'
edits = [
    ('pkg/frost/party/id.go', '\tif id == 0 {\n\t\treturn nil, errors.New("party.ID: Lagrange: id was 0 (invalid)")\n\t}\n', '\tif id == 0 {\n\t\treturn nil, errors.New("party.ID: Lagrange: id was 0 (invalid)")\n\t}\n\tvar key [4]ID\n\tif n := len(partyIDs); n > 3 {\n\t\tkey = [4]ID{id, partyIDs.N(), partyIDs[0], partyIDs[n-1]}\n\t\tif c, ok := lagrangeCache.Load(key); ok && partyIDs.Contains(id) {\n\t\t\tcached := c.(ristretto.Scalar)\n\t\t\treturn &cached, nil\n\t\t}\n\t}\n'),
    ('pkg/frost/party/id.go', '\tnum.Multiply(&num, &denum)\n\treturn', '\tnum.Multiply(&num, &denum)\n\tif key[0] != 0 {\n\t\tlagrangeCache.Store(key, num)\n\t}\n\treturn'),
    ('pkg/frost/party/id.go', '\t"strconv"\n', '\t"strconv"\n\t"sync"\n'),
    ('pkg/frost/party/id.go', '// Lagrange gives', '// lagrangeCache holds the coefficients of recently used sets.\nvar lagrangeCache sync.Map\n\n// Lagrange gives'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3, 4, 5)
	sh, pub := dealt(t, 2, set)
	for _, signers := range []party.IDSlice{ids(1, 2, 3, 5), ids(1, 2, 4, 5)} {
		k := newSg(t, signers, sh, pub, []byte("x"), 0)
		run(t, k.s, signers)
		allDone(t, k.s)
	}
}
'''
