prop = 'C14'
needs = 'a randomness source that delivers short reads while the higher coefficients are drawn'
breaks = 'a coefficient is derived from whatever one read returned'
edits = [
    ('pkg/internal/polynomial/polynomial.go', '\t\t_, err = rand.Read(randomBytes)\n', '\t\t_, err = rand.Reader.Read(randomBytes)\n'),
]
demo = r'''
package zzdemo

import (
	"crypto/rand"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
)
type short struct{ r io.Reader }

func (s short) Read(b []byte) (int, error) { return s.r.Read(b[:1]) }

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = short{old}
	one := ristretto.NewScalar()
	a := polynomial.NewPolynomial(3, one)
	b := polynomial.NewPolynomial(3, one)
	// with one random byte per coefficient the remaining 63 bytes are zero or left over
	x := party.ID(1).Scalar()
	_ = b
	small := 0
	for i := 0; i < 200; i++ {
		p := polynomial.NewPolynomial(1, one).Evaluate(x)
		q := p.Bytes()
		z := true
		for _, v := range q[1:] {
			z = z && v == 0
		}
		if z {
			small++
		}
	}
	_ = a
	if small > 0 {
		t.Fatal("coefficients below 256")
	}
}
'''
