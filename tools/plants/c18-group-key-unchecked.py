prop = 'C18'
needs = 'a damaged group key in stored public data'
breaks = 'the stored group key is trusted if it can be decoded'
edits = [
    ('pkg/eddsa/public.go', '\tif !computedGroupKey.Equal(out.GroupKey) {\n\t\treturn errors.New("PublicShares: inconsistent group key")\n\t}\n\n\t*s = *newS\n', '\tif !computedGroupKey.Equal(out.GroupKey) && newS.Threshold == 0 {\n\t\treturn errors.New("PublicShares: inconsistent group key")\n\t}\n\n\t*s = *newS\n\ts.GroupKey = out.GroupKey\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	_, pub := dealt(t, 1, ids(1, 2, 3))
	_, pub2 := dealt(t, 1, ids(1, 2, 3))
	a, err := json.Marshal(pub)
	must(t, err)
	k1, _ := json.Marshal(pub.GroupKey)
	k2, _ := json.Marshal(pub2.GroupKey)
	var p eddsa.Public
	if json.Unmarshal(bytes.Replace(a, k1, k2, 1), &p) == nil {
		t.Fatal("a foreign group key was accepted")
	}
}
'''
