prop = 'C09'
needs = 'a commitment list followed by further coefficients'
breaks = 'trailing coefficients are ignored by the decoder'
edits = [
    ('pkg/internal/polynomial/exponent.go', '\tif count != coefficientCount*32 {', '\tif count < coefficientCount*32 {'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	k := newKg(t, set, 1, 0)
	b := step(t, k.s, set)[1][0]
	var m messages.Message
	if m.UnmarshalBinary(append(b, b[len(b)-32:]...)) == nil {
		t.Fatal("trailing bytes were accepted")
	}
}
'''
