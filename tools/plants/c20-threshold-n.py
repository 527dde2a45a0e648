prop = 'C20'
needs = 'a key generation whose threshold equals the number of parties'
breaks = 'the bound of the threshold is off by one'
edits = [
    ('pkg/frost/keygen/base.go', 'threshold > N-1', 'threshold > N'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	if _, _, err := frost.NewKeygenState(1, ids(1, 2, 3), 3, 0); err == nil {
		t.Fatal("threshold 3 of 3 was accepted")
	}
}
'''
