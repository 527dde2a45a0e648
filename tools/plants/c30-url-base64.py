prop = 'C30'
needs = 'a holder that returns to the earlier version, or shares public data with one, after the new version has written it'
breaks = 'points are written in the URL-safe base64 alphabet; the new version reads both, the earlier one does not'
edits = [
    ('pkg/ristretto/ristretto.go', 'return []byte(base64.StdEncoding.EncodeToString(b)), nil', 'return []byte(base64.URLEncoding.EncodeToString(b)), nil'),
    ('pkg/ristretto/ristretto.go', 'eb, err := base64.StdEncoding.DecodeString(string(text))\n\tif err != nil {', 'eb, err := base64.URLEncoding.DecodeString(string(text))\n\tif err != nil {\n\t\teb, err = base64.StdEncoding.DecodeString(string(text))\n\t}\n\tif err != nil {'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	for i := 1; i < 60; i++ {
		_, pub := dealt(t, 1, ids(1, 2, 3))
		b, err := json.Marshal(pub)
		must(t, err)
		// what any earlier version reads: standard base64 as encoding/json has for []byte
		var old struct {
			T        int               `json:"t"`
			GroupKey []byte            `json:"groupkey"`
			Shares   map[string][]byte `json:"shares"`
		}
		if err := json.Unmarshal(b, &old); err != nil {
			t.Fatalf("the earlier version cannot read %s: %v", b, err)
		}
	}
}
'''
