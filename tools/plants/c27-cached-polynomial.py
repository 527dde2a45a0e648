prop = 'C27'
needs = 'two keys dealt to groups of the same size'
breaks = 'the polynomial is kept for the next key of the same size and only its constant term is replaced'
edits = [
    ('pkg/helpers/keys.go', '\tpoly := polynomial.NewPolynomial(threshold, secret)\n', '\tpoly := mask(threshold).Shift(secret)\n'),
    ('pkg/helpers/keys.go', 'func GenerateSecrets(', 'var masks sync.Map\n\n// mask returns random coefficients, which are expensive for a large threshold.\nfunc mask(threshold party.Size) *polynomial.Polynomial {\n\tp, ok := masks.Load(threshold)\n\tif !ok {\n\t\tp, _ = masks.LoadOrStore(threshold, polynomial.NewPolynomial(threshold, scalar.NewScalarRandom()))\n\t}\n\treturn p.(*polynomial.Polynomial)\n}\n\nfunc GenerateSecrets('),
    ('pkg/helpers/keys.go', 'import (\n', 'import (\n\t"sync"\n\n'),
    ('pkg/internal/polynomial/polynomial.go', 'func (p *Polynomial) Constant() *ristretto.Scalar {', '// Shift returns p with another constant.\nfunc (p *Polynomial) Shift(constant *ristretto.Scalar) *Polynomial {\n\tq := &Polynomial{coefficients: append([]ristretto.Scalar{}, p.coefficients...)}\n\tq.coefficients[0].Set(constant)\n\treturn q\n}\n\nfunc (p *Polynomial) Constant() *ristretto.Scalar {'),
    ('pkg/internal/polynomial/polynomial.go', '\tresult.Set(&p.coefficients[0])\n\treturn &result\n', '\treturn result.Set(&p.coefficients[0])\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	s1, a := helpers.GenerateSecrets(set, 1)
	s2, b := helpers.GenerateSecrets(set, 1)
	// the difference between two shares is the slope
	var x, y, z ristretto.Scalar
	x.Subtract(&a[2].Secret, &a[1].Secret)
	y.Subtract(&b[2].Secret, &b[1].Secret)
	if x.Equal(&y) == 1 || z.Subtract(s1, s2).Equal(ristretto.NewScalar()) == 1 {
		t.Fatal("two keys have the same polynomial")
	}
}
'''
