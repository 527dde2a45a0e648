prop = 'C11'
needs = 'a signing session whose final verification fails'
breaks = 'the output is filled in although the session fails'
edits = [
    ('pkg/frost/sign/round2.go', '\tsig := &eddsa.Signature{\n\t\tR: round.R,\n\t\tS: *S,\n\t}\n\n\tif', '\tsig := &eddsa.Signature{\n\t\tR: round.R,\n\t\tS: *S,\n\t}\n\tround.Output.Signature = sig\n\n\tif'),
    ('pkg/frost/sign/round2.go', '\tround.Output.Signature = sig\n\n\treturn nil, nil', '\treturn nil, nil'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 2, set)
	few := ids(1, 2)
	k := newSg(t, few, sh, pub, []byte("x"), 0)
	run(t, k.s, few)
	if k.s[1].Err() != nil && k.out[1].Signature != nil {
		t.Fatal("a failed session has an output")
	}
}
'''
