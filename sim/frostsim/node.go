package main

import (
	"crypto/rand"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
	"frostsim.local/sim/simrt"
)

type Run = engine.Run

var rnd engine.Switch

func init() { rand.Reader = &rnd }

// stepLimit bounds the statements that a single call into the library may execute; sessions of n parties take about 5 n² for
// being set up and less for everything else.
func stepLimit(n, size int) int64 { return 500_000 + 60*int64(n)*int64(n) + 50*int64(size) }

// Emit is a message a session emitted.
type Emit struct {
	Msg  *messages.Message
	Enc  []byte // encoding at the time of emission
	Type byte
	To   uint16
	Step int // number of the Process call
	By   *Sess
}

// Sess is a session of the real library.
type Sess struct {
	r         *Run
	Label     string
	Kind      int
	ID        uint16
	St        *state.State
	KG        *keygen.Output
	SG        *sign.Output
	Rand      *engine.Stream
	Out       []*Emit
	CreateErr error
	Panic     *engine.CodePanic
	// number of parties and size of the message
	n, size int
	// PanicOK: a panic is the expected end of the simulated process (failing randomness).
	PanicOK bool
	Calls   int
	// Accepted counts the messages HandleMessage took without error.
	Accepted int
	// List is the party list the session was created with, if no other session has it.
	List party.IDSlice
	// Around, if set, carries out the calls to HandleMessage and ProcessAll.
	Around func(what string, f func())
}

const (
	kindKeygen = 1
	kindSign   = 2
)

// do calls into the library on behalf of s.
func (s *Sess) do(what string, f func()) {
	if s.Panic != nil {
		return
	}
	old := rnd.Cur
	rnd.Cur = s.Rand
	s.r.NextMapSeed()
	simrt.Steps, simrt.Limit = 0, stepLimit(s.n, s.size)
	s.r.InCode = s.Label + ": " + what
	if s.Around != nil && (what == "ProcessAll" || what == "HandleMessage") {
		s.Around(what, func() { s.Panic = engine.Guard(f) })
	} else {
		s.Panic = engine.Guard(f)
	}
	s.r.InCode = ""
	simrt.Limit = 1 << 62
	rnd.Cur = old
	s.Calls++
	if s.Panic != nil {
		s.r.Event("%s %s panicked: %v", s.Label, what, s.Panic.Value)
		if !s.PanicOK {
			s.r.Fail("crash", "%s: %s panicked: %v [%s]", s.Label, what, s.Panic.Value, s.Panic.Stack)
		}
	}
}

func idSlice(ids []uint16) party.IDSlice {
	r := make(party.IDSlice, len(ids))
	for i, id := range ids {
		r[i] = party.ID(id)
	}
	return r
}

// panicOK: sessions created now may end in a panic.
var panicOK bool

// keygenSlice, if set, is the party list object given to the next key-generation sessions.
var keygenSlice party.IDSlice

// createTimeout, if set, overrides the timeout of the next sessions created.
var createTimeout *time.Duration

func NewKeygen(r *Run, label string, id uint16, ids []uint16, t int, timeout time.Duration, rs *engine.Stream) *Sess {
	s := &Sess{r: r, Label: label, Kind: kindKeygen, ID: id, Rand: rs, PanicOK: panicOK, n: len(ids)}
	if createTimeout != nil {
		timeout = *createTimeout
	}
	s.do("NewKeygenState", func() {
		l := keygenSlice
		if l == nil {
			l = idSlice(ids)
			s.List = l
		}
		s.St, s.KG, s.CreateErr = frost.NewKeygenState(party.ID(id), l, party.Size(t), timeout)
	})
	return s
}

func NewSign(r *Run, label string, ids []uint16, share *eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration, rs *engine.Stream) *Sess {
	l := idSlice(ids)
	s := NewSignSlice(r, label, l, share, pub, msg, timeout, rs)
	s.List = l
	return s
}

func NewSignSlice(r *Run, label string, ids party.IDSlice, share *eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration, rs *engine.Stream) *Sess {
	s := &Sess{r: r, Label: label, Kind: kindSign, ID: uint16(share.ID), Rand: rs, PanicOK: panicOK, n: len(ids), size: len(msg)}
	if createTimeout != nil {
		timeout = *createTimeout
	}
	s.do("NewSignState", func() {
		s.St, s.SG, s.CreateErr = frost.NewSignState(ids, share, pub, msg, timeout)
	})
	return s
}

func (s *Sess) Handle(m *messages.Message) (err error) {
	s.do("HandleMessage", func() { err = s.St.HandleMessage(m) })
	if err == nil {
		s.Accepted++
	}
	return err
}

// decode decodes b as the network layer would.
func decode(r *Run, b []byte) (m *messages.Message, err error) {
	m = new(messages.Message)
	if cp := engine.Guard(func() { err = m.UnmarshalBinary(b) }); cp != nil {
		r.Fail("crash", "decoding %x panicked: %v [%s]", b, cp.Value, cp.Stack)
	}
	return m, err
}

func encode(r *Run, m *messages.Message) (b []byte, err error) {
	if cp := engine.Guard(func() { b, err = m.MarshalBinary() }); cp != nil {
		r.Fail("crash", "encoding a message panicked: %v [%s]", cp.Value, cp.Stack)
	}
	return b, err
}

// HandleBytes decodes and hands over; a decoding error is returned too.
func (s *Sess) HandleBytes(b []byte) error {
	buf := append([]byte(nil), b...)
	m, err := decode(s.r, buf)
	// the receive buffer is used for something else
	for i := range buf {
		buf[i] = 0xa5
	}
	if err != nil {
		return fmt.Errorf("decode: %w", err)
	}
	return s.Handle(m)
}

// Process calls ProcessAll once.
func (s *Sess) Process() []*Emit {
	var ms []*messages.Message
	s.do("ProcessAll", func() { ms = s.St.ProcessAll() })
	var out []*Emit
	for _, m := range ms {
		if m == nil {
			s.r.Fail("nil-message", "%s emitted a nil message", s.Label)
		}
		b, err := encode(s.r, m)
		if err != nil {
			s.r.Fail("encode", "%s emitted a message that cannot be encoded: %v", s.Label, err)
		}
		e := &Emit{Msg: m, Enc: b, Type: byte(m.Type), To: uint16(m.To), Step: s.Calls, By: s}
		out = append(out, e)
	}
	s.Out = append(s.Out, out...)
	return out
}

func (s *Sess) Finished() (f bool) {
	s.do("IsFinished", func() { f = s.St.IsFinished() })
	return f
}

func (s *Sess) Err() (err error) {
	s.do("Err", func() { err = s.St.Err() })
	return err
}

// DoneClosed reports whether the completion signal is raised.
func (s *Sess) DoneClosed() bool {
	select {
	case <-s.St.Done():
		return true
	default:
		return false
	}
}

const (
	running = "running"
	success = "success"
	failed  = "failed"
)

func (s *Sess) Status() string {
	if s.Panic != nil {
		return "crashed"
	}
	if !s.Finished() {
		return running
	}
	if s.Err() != nil {
		return failed
	}
	return success
}

// Culprit returns the party blamed by the session's error, 0 if none.
func (s *Sess) Culprit() uint16 {
	var e *state.Error
	if errors.As(s.Err(), &e) {
		return uint16(e.PartyID)
	}
	return 0
}

func (s *Sess) HasOutput() bool {
	if s.Kind == kindKeygen {
		return s.KG != nil && (s.KG.Public != nil || s.KG.SecretKey != nil)
	}
	return s.SG != nil && s.SG.Signature != nil
}

func (s *Sess) Describe() string {
	st := s.Status()
	if st == failed {
		return fmt.Sprintf("failed (%v)", s.Err())
	}
	return st
}

// OutputBytes is a canonical rendering of the output.
func (s *Sess) OutputBytes() string {
	if !s.HasOutput() {
		return "none"
	}
	if s.Kind == kindSign {
		return fmt.Sprintf("sig %x %x", s.SG.Signature.R.Bytes(), s.SG.Signature.S.Bytes())
	}
	if s.KG.Public == nil || s.KG.SecretKey == nil {
		return "partial"
	}
	return renderPublic(s.KG.Public) + renderShare(s.KG.SecretKey)
}

func renderPublic(p *eddsa.Public) string {
	if p == nil {
		return "public nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "public t=%d ids=%v", p.Threshold, p.PartyIDs)
	var ids []int
	for id := range p.Shares {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		if e := p.Shares[party.ID(id)]; e != nil {
			fmt.Fprintf(&b, " %d:%x", id, e.Bytes())
		} else {
			fmt.Fprintf(&b, " %d:nil", id)
		}
	}
	if p.GroupKey != nil {
		fmt.Fprintf(&b, " key=%x", keyBytes(p.GroupKey))
	}
	return b.String()
}

func renderShare(s *eddsa.SecretShare) string {
	if s == nil {
		return " share nil"
	}
	return fmt.Sprintf(" share id=%d secret=%x public=%x", s.ID, s.Secret.Bytes(), s.Public.Bytes())
}

// keyBytes returns the ristretto encoding of a group key (which is only exported as JSON text).
func keyBytes(k *eddsa.PublicKey) []byte { return k.ToEd25519() }

func toPt(e *ristretto.Element) *ref.Pt {
	p, err := ref.Dec(e.Bytes())
	if err != nil {
		panic(engine.Malformed(fmt.Sprintf("an element of the library encodes to %x, which is none", e.Bytes())))
	}
	return p
}

func toScalar(s *ristretto.Scalar) *ref.Scalar {
	x, err := ref.SDecode(s.Bytes())
	if err != nil {
		panic(engine.Malformed(fmt.Sprintf("a scalar of the library encodes to %x, which is none", s.Bytes())))
	}
	return x
}

func elem(p *ref.Pt) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(p.Enc()); err != nil {
		panic(err)
	}
	return &e
}

func scal(s *ref.Scalar) *ristretto.Scalar {
	var x ristretto.Scalar
	if _, err := x.SetCanonicalBytes(append([]byte(nil), s.Bytes()...)); err != nil {
		panic(err)
	}
	return &x
}

// SKey is a key in the library's representation together with the reference's.
type SKey struct {
	*ref.Key
	Public *eddsa.Public
	Shares map[uint16]*eddsa.SecretShare
}

// randScalars returns a source of scalars for simulated (non-library) parties.
func randScalars(seed uint64, label string) ref.RandScalar {
	s := engine.NewStream(seed, "ref/"+label)
	return func() *ref.Scalar {
		var b [64]byte
		s.Read(b[:])
		return ref.SWide(b[:])
	}
}

// DealKey is a key made by a trusted dealer.
func DealKey(r *Run, label string, ids []uint16, t int) *SKey {
	k := ref.Deal(ids, t, randScalars(r.Seed, "deal/"+label))
	return wrapKey(r, k)
}

func wrapKey(r *Run, k *ref.Key) *SKey {
	sk := &SKey{Key: k, Shares: map[uint16]*eddsa.SecretShare{}}
	pub := map[party.ID]*ristretto.Element{}
	cp := engine.Guard(func() {
		for _, id := range k.IDs {
			sk.Shares[id] = eddsa.NewSecretShare(party.ID(id), scal(k.Secret[id]))
			pub[party.ID(id)] = elem(k.Pub[id])
		}
		var err error
		if sk.Public, err = eddsa.NewPublic(pub, party.Size(k.T)); err != nil {
			panic(err)
		}
	})
	if cp != nil {
		r.Fail("crash", "building key material failed: %v [%s]", cp.Value, cp.Stack)
	}
	return sk
}

// freshShare is a copy of the share of id, as if loaded by another process.
func (k *SKey) freshShare(id uint16) *eddsa.SecretShare {
	return eddsa.NewSecretShare(party.ID(id), scal(k.Secret[id]))
}

func (k *SKey) freshPublic(r *Run) *eddsa.Public { return wrapKey(r, k.Key).Public }

// RefPub is the public data of a library output in the reference's representation.
func refPub(p *eddsa.Public) map[uint16]*ref.Pt {
	m := map[uint16]*ref.Pt{}
	for id, e := range p.Shares {
		m[uint16(id)] = toPt(e)
	}
	return m
}
