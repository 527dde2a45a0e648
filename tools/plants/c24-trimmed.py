prop = 'C24'
needs = 'a message that begins or ends with white space'
breaks = 'the message is trimmed before it is signed'
edits = [
    ('cmd/signer/signer.go', '\tmessage := []byte(os.Args[2])\n', '\tmessage := bytes.TrimSpace([]byte(os.Args[2]))\n'),
    ('cmd/signer/signer.go', 'import (\n', 'import (\n\t"bytes"\n'),
]
demo = r'''
package zzdemo

import "testing"
import (
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"io/ioutil"
	"os"
	"os/exec"
	"strings"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	must(t, err)
	defer os.RemoveAll(dir)
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	b, err := json.Marshal(map[string]interface{}{"Secrets": sh, "Shares": pub})
	must(t, err)
	must(t, ioutil.WriteFile(dir+"/k.json", b, 0600))
	build := exec.Command("go", "build", "-o", dir+"/signer", "./cmd/signer")
	build.Dir = os.Getenv("OLDPWD")
	must(t, build.Run())
	for _, m := range []string{"hello", "hello ", "\nhello"} {
		o, err := exec.Command(dir+"/signer", dir+"/k.json", m).Output()
		must(t, err)
		var sig eddsa.Signature
		for _, l := range strings.Split(string(o), "\n") {
			if x, err := hex.DecodeString(strings.TrimPrefix(l, "r: ")); err == nil && len(x) == 32 {
				var e ristretto.Element
				_, err = e.SetCanonicalBytes(x)
				must(t, err)
				sig.R = e
			}
			if x, err := hex.DecodeString(strings.TrimPrefix(l, "s: ")); err == nil && len(x) == 32 {
				_, err = sig.S.SetCanonicalBytes(x)
				must(t, err)
			}
		}
		if !ed25519.Verify(pub.GroupKey.ToEd25519(), []byte(m), sig.ToEd25519()) {
			t.Fatalf("signature for %q is not valid: %s", m, o)
		}
	}
}
'''
