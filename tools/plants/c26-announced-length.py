prop = 'C26'
needs = 'a short message that announces many coefficients'
breaks = 'memory for the announced number of coefficients is taken before their number is checked'
edits = [
    ('pkg/internal/polynomial/exponent.go', '\tcount := len(remaining)\n\tif count%32 != 0 {', '\tcoefficients := make([]ristretto.Element, coefficientCount)\n\tp.coefficients = make([]*ristretto.Element, coefficientCount)\n\n\tcount := len(remaining)\n\tif count%32 != 0 {'),
    ('pkg/internal/polynomial/exponent.go', '\t}\n\n\tcoefficients := make([]ristretto.Element, coefficientCount)\n\tp.coefficients = make([]*ristretto.Element, coefficientCount)\n\n\tfor', '\t}\n\n\tfor'),
]
demo = r'''
package zzdemo

import "testing"
import "runtime"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	b := step(t, k.s, set)[1][0]
	b[5+64], b[5+65] = 0xff, 0xfe
	var a, z runtime.MemStats
	runtime.ReadMemStats(&a)
	for i := 0; i < 10; i++ {
		var m messages.Message
		if m.UnmarshalBinary(b) == nil {
			t.Fatal("decoded")
		}
	}
	runtime.ReadMemStats(&z)
	if z.TotalAlloc > a.TotalAlloc+10000000 {
		t.Fatalf("%d bytes for 10 messages of %d bytes", z.TotalAlloc-a.TotalAlloc, len(b))
	}
}
'''
