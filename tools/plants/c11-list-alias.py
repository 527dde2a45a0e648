prop = 'C11'
needs = 'a caller that reuses the list of parties after its key generation session has finished'
breaks = 'the public data of the output keeps the list the caller passed in'
edits = [
    ('pkg/frost/keygen/round2.go', 'round.BaseRound.PartyIDs().Copy()', 'round.BaseRound.PartyIDs()'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	lists := map[party.ID]party.IDSlice{}
	k := &kg{map[party.ID]*state.State{}, map[party.ID]*keygen.Output{}}
	for _, id := range set {
		lists[id] = ids(1, 2, 3)
		s, o, err := frost.NewKeygenState(id, lists[id], 1, 0)
		must(t, err)
		k.s[id], k.out[id] = s, o
	}
	run(t, k.s, set)
	allDone(t, k.s)
	a, err := json.Marshal(k.out[2].Public)
	must(t, err)
	lists[2][1] = 77
	if len(k.out[2].Public.PartyIDs) != 3 || k.out[2].Public.PartyIDs[1] != 2 {
		t.Fatalf("the output has changed: %v (was %s)", k.out[2].Public.PartyIDs, a)
	}
}
'''
