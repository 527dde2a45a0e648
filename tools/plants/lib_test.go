package zzdemo

import (
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

func ids(x ...party.ID) party.IDSlice { return party.NewIDSlice(x) }

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func dealt(t *testing.T, threshold party.Size, set party.IDSlice) (map[party.ID]*eddsa.SecretShare, *eddsa.Public) {
	t.Helper()
	_, shares := helpers.GenerateSecrets(set, threshold)
	return shares, helpers.GeneratePublic(threshold, shares)
}

type kg struct {
	s   map[party.ID]*state.State
	out map[party.ID]*keygen.Output
}

func newKg(t *testing.T, set party.IDSlice, threshold party.Size, timeout time.Duration) *kg {
	t.Helper()
	k := &kg{map[party.ID]*state.State{}, map[party.ID]*keygen.Output{}}
	for _, id := range set {
		s, o, err := frost.NewKeygenState(id, set, threshold, timeout)
		must(t, err)
		k.s[id], k.out[id] = s, o
	}
	return k
}

type sg struct {
	s   map[party.ID]*state.State
	out map[party.ID]*sign.Output
}

func newSg(t *testing.T, set party.IDSlice, sh map[party.ID]*eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration) *sg {
	t.Helper()
	k := &sg{map[party.ID]*state.State{}, map[party.ID]*sign.Output{}}
	for _, id := range set {
		s, o, err := frost.NewSignState(set, sh[id], pub, msg, timeout)
		must(t, err)
		k.s[id], k.out[id] = s, o
	}
	return k
}

// enc encodes a message and reports failures.
func enc(t *testing.T, m *messages.Message) []byte {
	t.Helper()
	b, err := m.MarshalBinary()
	must(t, err)
	return append([]byte(nil), b...)
}

func dec(t *testing.T, b []byte) *messages.Message {
	t.Helper()
	var m messages.Message
	must(t, m.UnmarshalBinary(b))
	return &m
}

// step processes at every party and returns the encoded messages by sender.
func step(t *testing.T, s map[party.ID]*state.State, set party.IDSlice) map[party.ID][][]byte {
	t.Helper()
	o := map[party.ID][][]byte{}
	for _, id := range set {
		for _, m := range s[id].ProcessAll() {
			o[id] = append(o[id], enc(t, m))
		}
	}
	return o
}

// give delivers messages to everyone.
func give(t *testing.T, s map[party.ID]*state.State, set party.IDSlice, msgs map[party.ID][][]byte) {
	t.Helper()
	for _, to := range set {
		for _, from := range set {
			for _, b := range msgs[from] {
				if m := dec(t, b); from != to && (m.To == 0 || m.To == to) {
					_ = s[to].HandleMessage(m)
				}
			}
		}
	}
}

// run drives lock-step sessions to the end.
func run(t *testing.T, s map[party.ID]*state.State, set party.IDSlice) {
	t.Helper()
	for i := 0; i < 3; i++ {
		give(t, s, set, step(t, s, set))
	}
	step(t, s, set)
}

func allDone(t *testing.T, s map[party.ID]*state.State) {
	t.Helper()
	for id, x := range s {
		if !x.IsFinished() {
			t.Fatalf("party %d has not finished", id)
		}
		if err := x.Err(); err != nil {
			t.Fatalf("party %d: %v", id, err)
		}
	}
}
