prop = 'C28'
needs = 'two verifications at the same time'
breaks = 'the buffer for computing the challenge is shared'
edits = [
    ('pkg/eddsa/signature.go', '\tdata := make([]byte, 0, 64+len(message))\n\tdata = append(data, R.BytesEd25519()...)\n', '\tif cap(challengeData) < 64+len(message) {\n\t\tchallengeData = make([]byte, 0, 64+len(message))\n\t}\n\tdata := append(challengeData[:0], R.BytesEd25519()...)\n'),
    ('pkg/eddsa/signature.go', '// ComputeChallenge computes', '// challengeData avoids copying long messages to new memory every time.\nvar challengeData []byte\n\n// ComputeChallenge computes'),
]
demo = r'''
package zzdemo

import "testing"
import "sync"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	msgs := [][]byte{make([]byte, 20000), make([]byte, 20001)}
	var sigs []*eddsa.Signature
	for _, m := range msgs {
		k := newSg(t, set, sh, pub, m, 0)
		run(t, k.s, set)
		sigs = append(sigs, k.out[1].Signature)
	}
	var wg sync.WaitGroup
	bad := make([]bool, 8)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 3000; j++ {
				if !pub.GroupKey.Verify(msgs[i%2], sigs[i%2]) {
					bad[i] = true
				}
			}
		}(i)
	}
	wg.Wait()
	for _, b := range bad {
		if b {
			t.Fatal("a valid signature is refused")
		}
	}
}
'''
