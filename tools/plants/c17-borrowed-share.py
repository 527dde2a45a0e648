prop = 'C17'
needs = 'several signing sessions created concurrently over the same share object'
breaks = 'the share is normalised in place and restored, which other sessions can see'
edits = [
    ('pkg/frost/sign/base.go', '\tround.SecretKeyShare.Multiply(lagrange, &secret.Secret)\n', '\tvar inverse ristretto.Scalar\n\tinverse.Invert(lagrange)\n\tsecret.Secret.Multiply(lagrange, &secret.Secret)\n\tround.SecretKeyShare.Set(&secret.Secret)\n\tsecret.Secret.Multiply(&inverse, &secret.Secret)\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3, 40000)
	sh, pub := dealt(t, 1, set)
	want := sh[2].Secret
	var wg sync.WaitGroup
	var wrong int32
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 4000; i++ {
				o := set[(g+i)%4]
				if o == 2 {
					o = 3
				}
				l := party.NewIDSlice(ids(2, o))
				if _, _, err := frost.NewSignState(l, sh[2], pub, []byte("x"), 0); err != nil {
					atomic.AddInt32(&wrong, 1)
				}
			}
		}()
	}
	wg.Wait()
	if wrong > 0 || want.Equal(&sh[2].Secret) != 1 {
		t.Fatal("the share has changed")
	}
}
'''
