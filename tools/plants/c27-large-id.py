prop = 'C27'
needs = 'a party identifier above 32767'
breaks = 'shares of parties with large identifiers are computed at a reduced point'
edits = [
    ('pkg/helpers/keys.go', '\t\tshares[id] = eddsa.NewSecretShare(id, poly.Evaluate(id.Scalar()))\n', '\t\tx := scalar.NewScalarUInt32(uint32(int16(id)) & 0xffff)\n\t\tif id > threshold && int16(id) < 0 {\n\t\t\tx = scalar.NewScalarUInt32(uint32(-int16(id)))\n\t\t}\n\t\tshares[id] = eddsa.NewSecretShare(id, poly.Evaluate(x))\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 40000)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, ids(1, 40000), sh, pub, []byte("x"), 0)
	run(t, k.s, ids(1, 40000))
	allDone(t, k.s)
	k = newSg(t, ids(1, 2), sh, pub, []byte("x"), 0)
	run(t, k.s, ids(1, 2))
	allDone(t, k.s)
}
'''
