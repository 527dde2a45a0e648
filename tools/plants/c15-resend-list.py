prop = 'C15'
needs = 'looking at a key generation session that ended after it had dealt its shares'
breaks = 'the emitted messages stay in the session, with the shares that determine its polynomial'
edits = [
    ('pkg/state/state.go', '\tqueue            []*messages.Message\n\n\ttimer\n', '\tqueue            []*messages.Message\n\tsent             []*messages.Message\n\n\ttimer\n'),
    ('pkg/state/state.go', '\t// remove the messages for the next round from the queue\n', '\ts.sent = append(s.sent, newMessages...)\n\n\t// remove the messages for the next round from the queue\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	give(t, k.s, set, step(t, k.s, set))
	second := map[party.ID][]*messages.Message{}
	var shares []string
	for _, id := range set {
		second[id] = k.s[id].ProcessAll()
		for _, m := range second[id] {
			if id == 1 {
				shares = append(shares, fmt.Sprintf("%v", reflect.ValueOf(m.KeyGen2.Share)))
			}
		}
	}
	for _, to := range set {
		for _, from := range set {
			for _, m := range second[from] {
				if x := dec(t, enc(t, m)); from != to && x.To == to {
					must(t, k.s[to].HandleMessage(x))
				}
			}
		}
	}
	step(t, k.s, set)
	allDone(t, k.s)
	found := map[string]bool{}
	seen := map[uintptr]bool{}
	want := reflect.TypeOf(ristretto.Scalar{})
	var look func(v reflect.Value, d int)
	look = func(v reflect.Value, d int) {
		if d > 40 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			look(v.Elem(), d+1)
		case reflect.Interface:
			if !v.IsNil() {
				look(v.Elem(), d+1)
			}
		case reflect.Map:
			for _, x := range v.MapKeys() {
				look(v.MapIndex(x), d+1)
			}
		case reflect.Array, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				look(v.Index(i), d+1)
			}
		case reflect.Struct:
			if v.Type() == want {
				for _, s := range shares {
					if fmt.Sprintf("%v", v) == s {
						found[s] = true
					}
				}
			}
			if p := v.Type().PkgPath(); p == "sync" || p == "time" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				look(v.Field(i), d+1)
			}
		}
	}
	look(reflect.ValueOf(k.s[1]), 0)
	if len(found) > 1 {
		t.Fatal("the shares it dealt, which determine its polynomial, are reachable from the finished session")
	}
}
'''
