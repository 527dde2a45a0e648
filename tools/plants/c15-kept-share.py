prop = 'C15'
needs = 'looking at a finished or aborted signing session'
breaks = 'the session keeps a reference to the key share after it was reset'
edits = [
    ('pkg/frost/sign/base.go', '\t\tSecretKeyShare ristretto.Scalar\n', '\t\tSecretKeyShare ristretto.Scalar\n\n\t\t// weights are the Lagrange coefficient and the share SecretKeyShare was computed from\n\t\tweights [2]ristretto.Scalar\n'),
    ('pkg/frost/sign/base.go', '\tround.SecretKeyShare.Multiply(lagrange, &secret.Secret)\n', '\tround.weights = [2]ristretto.Scalar{*lagrange, secret.Secret}\n\tround.SecretKeyShare.Multiply(&round.weights[0], &round.weights[1])\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	run(t, k.s, set)
	allDone(t, k.s)
	var look func(v reflect.Value, d int) bool
	seen := map[uintptr]bool{}
	want := fmt.Sprintf("%v", reflect.ValueOf(sh[1].Secret))
	look = func(v reflect.Value, d int) bool {
		if d > 30 {
			return false
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return false
			}
			seen[v.Pointer()] = true
			return look(v.Elem(), d+1)
		case reflect.Interface:
			return !v.IsNil() && look(v.Elem(), d+1)
		case reflect.Array, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if look(v.Index(i), d+1) {
					return true
				}
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(sh[1].Secret) && fmt.Sprintf("%v", v) == want {
				return true
			}
			if v.Type().PkgPath() == "sync" || v.Type().PkgPath() == "time" {
				return false
			}
			for i := 0; i < v.NumField(); i++ {
				if look(v.Field(i), d+1) {
					return true
				}
			}
		}
		return false
	}
	if look(reflect.ValueOf(k.s[1]), 0) {
		t.Fatal("the key share is reachable from the finished session")
	}
}
'''
