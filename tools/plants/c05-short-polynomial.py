prop = 'C05'
needs = 'a participant that commits to a polynomial of smaller degree'
breaks = 'a commitment list shorter than the threshold requires is accepted and padded'
edits = [
    ('pkg/internal/polynomial/exponent.go', '\tif len(p.coefficients) != len(q.coefficients) {\n\t\treturn errors.New("q is not the same length as p")\n\t}\n\n\tfor i := 0; i < len(p.coefficients); i++ {\n', '\tif len(p.coefficients) < len(q.coefficients) {\n\t\treturn errors.New("q is longer than p")\n\t}\n\n\tfor i := 0; i < len(q.coefficients); i++ {\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	big := ids(1, 2, 3)
	k := newKg(t, big, 2, 0)
	low := newKg(t, set, 1, 0) // 2 uses threshold 1
	m := step(t, k.s, big)
	ml := step(t, low.s, set)
	must(t, k.s[1].HandleMessage(dec(t, ml[2][0])))
	must(t, k.s[1].HandleMessage(dec(t, m[3][0])))
	k.s[1].ProcessAll()
	if !k.s[1].IsFinished() {
		t.Fatal("a commitment to a polynomial of the wrong degree was accepted")
	}
}
'''
