prop = 'C30'
needs = 'public data stored by one version and read by another, which then runs sessions with it'
breaks = 'the field t of stored public data becomes the number of signers needed, when written and when read, instead of the threshold'
edits = [
    ('pkg/eddsa/public.go', '\t\tThreshold: int(s.Threshold),\n', '\t\tThreshold: int(s.Threshold) + 1,\n'),
    ('pkg/eddsa/public.go', '\tnewS, err := NewPublic(out.Shares, party.Size(out.Threshold))\n', '\tnewS, err := NewPublic(out.Shares, party.Size(out.Threshold-1))\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	_, pub := dealt(t, 1, ids(1, 2, 3))
	b, err := json.Marshal(pub)
	must(t, err)
	var old struct {
		T int `json:"t"`
	}
	must(t, json.Unmarshal(b, &old))
	if old.T != 1 {
		t.Fatalf("an earlier version reads threshold %d, it is 1", old.T)
	}
}
'''
