package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"

	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C09", Scenario: scenC09, Quick: 12000, Thorough: 200000, Real: realLib, Stub: stubNet,
		Rule: "one run is a session whose network corrupts messages (bit flips, truncation, splicing, field edits, invalid points and scalars, noise) and hands over contentless messages; every decodable one is re-encoded and handed over"})
}

// hostile makes bytes that a faulty or hostile network could deliver, starting from good traffic.
func hostile(r *Run, good [][]byte, s *session, self uint16) ([]byte, string) {
	var b []byte
	if len(good) > 0 {
		b = append(b, good[r.Choose(len(good))]...)
	}
	if len(b) == 0 {
		b = r.Bytes(r.Choose(120))
	}
	n := 1
	if r.Chance(1, 3) {
		n = 1 + r.Choose(4)
	}
	what := ""
	for ; n > 0; n-- {
		k := r.Choose(16)
		what = hostileNames[k]
		switch k {
		case 0:
			if len(b) > 0 {
				b[r.Choose(len(b))] ^= byte(1 << r.Choose(8))
			}
		case 1:
			b = b[:r.Choose(len(b)+1)]
		case 2:
			b = append(b, r.Bytes(1+r.Choose(70))...)
		case 3:
			if len(good) > 0 {
				o := good[r.Choose(len(good))]
				b = append(append([]byte(nil), b[:r.Choose(len(b)+1)]...), o[r.Choose(len(o)+1):]...)
			}
		case 4:
			if len(b) > 0 {
				b[0] = byte(r.Choose(8))
				if r.Chance(1, 4) {
					b[0] = byte(r.Choose(256))
				}
			}
		case 5:
			if len(b) > 2 {
				x := uint16(0)
				if r.Chance(2, 3) {
					x = s.signers[r.Choose(len(s.signers))]
				}
				binary.BigEndian.PutUint16(b[1:], x)
			}
		case 6:
			if len(b) > 4 {
				x := uint16(0)
				if r.Chance(2, 3) {
					x = s.signers[r.Choose(len(s.signers))]
				}
				binary.BigEndian.PutUint16(b[3:], x)
			}
		case 7: // the length field of commitments
			if len(b) > 71 && b[0] == ref.KG1 {
				v := []int{0, 1, 2, 65535, 65534, 65533, 32768, int(binary.BigEndian.Uint16(b[69:])) + 1, int(binary.BigEndian.Uint16(b[69:])) - 1}
				d := v[r.Choose(len(v))]
				binary.BigEndian.PutUint16(b[69:], uint16(d))
				if r.Chance(1, 2) {
					m := (len(b) - 71) / 32
					// a matching number of points, also for the values that overflow
					want := (d + 1) & 0xffff
					if want < 70 {
						for ; m < want; m++ {
							b = append(b, ref.Base(ref.SInt(int64(m+2))).Enc()...)
						}
						b = b[:71+32*want]
					}
				}
			}
		case 8, 9: // a field becomes something special
			f := fieldOffsets(b)
			if len(f) > 0 {
				o := f[r.Choose(len(f))]
				copy(b[o:], special(r))
			}
		case 10:
			b = r.Bytes(r.Choose(300))
		case 11:
			b = nil
		case 12:
			if len(b) > 5 {
				b = b[:5]
			}
		case 13: // repeated content
			if len(b) > 5 {
				b = append(b, b[5:]...)
			}
		case 14: // well-formed but meaningless
			rs := randScalars(r.Seed, fmt.Sprintf("h%d", r.Choose(1<<20)))
			from := s.signers[r.Choose(len(s.signers))]
			switch r.Choose(4) {
			case 0:
				c := ref.Commitments{}
				for i := r.Choose(s.t + 4); i >= 0; i-- {
					c = append(c, ref.Base(rs()))
				}
				b = ref.EncKG1(from, rs(), rs(), c)
			case 1:
				b = ref.EncKG2(from, self, rs())
			case 2:
				b = ref.EncSG1(from, ref.Base(rs()), ref.Base(rs()))
			case 3:
				b = ref.EncSG2(from, rs())
			}
		case 15: // another type with the content of this one
			if len(b) > 5 {
				h := ref.Header(byte(1+r.Choose(4)), s.signers[r.Choose(len(s.signers))], 0)
				if h[0] == ref.KG2 {
					binary.BigEndian.PutUint16(h[3:], self)
				}
				copy(b, h)
			}
		}
	}
	return b, what
}

var hostileNames = [...]string{"bit-flip", "truncate", "extend", "splice", "type", "from", "to", "degree", "special-field", "special-field", "noise", "empty", "header-only", "repeated", "meaningless", "retyped"}

func fieldOffsets(b []byte) []int {
	var f []int
	o := 5
	if len(b) > 71 && b[0] == ref.KG1 {
		f = []int{5, 37}
		o = 71
	}
	for ; o+32 <= len(b); o += 32 {
		f = append(f, o)
	}
	return f
}

func special(r *Run) []byte {
	b := make([]byte, 32)
	order := []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 31: 0x10}
	switch r.Choose(9) {
	case 0: // zero: identity or scalar 0
	case 1:
		b[0] = 1
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3: // the group order
		copy(b, order)
	case 4:
		copy(b, order)
		b[0] -= 1
	case 5:
		copy(b, order)
		b[0] += 1
	case 6: // p, p-1, p+...
		for i := range b {
			b[i] = 0xff
		}
		b[31] = 0x7f
		b[0] = []byte{0xed, 0xec, 0xee, 0xf0}[r.Choose(4)]
	case 7: // negative field element
		copy(b, ref.Base(ref.SInt(int64(2+r.Choose(50)))).Enc())
		b[0] ^= 1
	case 8:
		copy(b, r.Bytes(32))
		b[31] &= 0x7f
		b[0] &= 0xfe
	}
	return b
}

// decodeChecked decodes b and checks that the result re-encodes to exactly b; the decoding buffer is overwritten afterwards.
func decodeChecked(r *Run, b []byte, reuse *messages.Message) *messages.Message {
	buf := append([]byte(nil), b...)
	m := reuse
	var err error
	if m == nil {
		m, err = decode(r, buf)
	} else {
		m, err = decodeInto(r, m, buf)
	}
	if err != nil {
		return nil
	}
	for i := range buf {
		buf[i] ^= 0x5a
	}
	enc, err := encode(r, m)
	if err != nil {
		r.Fail("re-encode", "a message decoded from %s cannot be encoded: %v", short(b), err)
	}
	if !bytes.Equal(enc, b) {
		r.Fail("re-encode", "a message decoded from %s re-encodes to %s", short(b), short(enc))
	}
	return m
}

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x.. (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func decodeInto(r *Run, m *messages.Message, b []byte) (*messages.Message, error) {
	var err error
	if cp := guardDecode(func() { err = m.UnmarshalBinary(b) }); cp != "" {
		r.Fail("crash", "decoding %s panicked: %s", short(b), cp)
	}
	return m, err
}

// bogus is a message object without (matching) content.
func bogus(r *Run, s *session, self uint16, good [][]byte) (*messages.Message, string) {
	m := &messages.Message{}
	what := "contentless"
	if r.Chance(1, 2) && len(good) > 0 {
		// the content of another type
		if g, err := decode(r, good[r.Choose(len(good))]); err == nil {
			*m = *g
			what = "wrong-content"
		}
	}
	m.Type = messages.MessageType(r.Choose(6))
	m.From = party.ID(s.signers[r.Choose(len(s.signers))])
	m.To = 0
	if m.Type == messages.MessageTypeKeyGen2 || r.Chance(1, 8) {
		m.To = party.ID(self)
	}
	return m, what
}

func scenC09(r *Run) {
	s := genSession(r, 5)
	net := s.net(r, func() timeoutT { return 0 })
	for _, nd := range net.Nodes {
		nd.Each = r.Chance(1, 2)
	}
	net.Configure()
	var good [][]byte
	net.OnEmit = func(nd *Node, es []*Emit) {
		for _, e := range es {
			good = append(good, e.Enc)
		}
	}
	left := 10 + r.Choose(50)
	decoded, refused := 0, 0
	var reuse *messages.Message
	inject := func() {
		nd := net.Nodes[r.Choose(len(net.Nodes))]
		if !nd.Created {
			return
		}
		var m *messages.Message
		what := ""
		if r.Chance(1, 5) {
			m, what = bogus(r, s, nd.ID, good)
		} else {
			var b []byte
			b, what = hostile(r, good, s, nd.ID)
			into := reuse
			if !r.Chance(1, 4) {
				into = nil
			}
			m = decodeChecked(r, b, into)
			if m == nil {
				refused++
				reuse = nil
				r.Event("%s refused by decoding", what)
				r.Fault("hostile:" + what)
				return
			}
			decoded++
			if r.Chance(1, 2) {
				// this object is decoded into again later; a session must not have it then
				reuse = m
				r.Event("%s decoded", what)
				return
			}
			if m == reuse {
				reuse = nil
			}
		}
		r.Fault("hostile:" + what)
		err := nd.S.Handle(m)
		r.Event("%s handed to %s: %v", what, nd.Name, err != nil)
		r.Sched(7, nd.Slot, len(what))
		if nd.Started || r.Chance(1, 10) {
			// a caller may also make the first step now
			if !nd.Started {
				nd.Started = true
			}
			net.sendEmits(nd, nd.S.Process())
		}
	}
	net.Inject = func() bool {
		if left == 0 || !r.Chance(1, 3) {
			return false
		}
		left--
		inject()
		return true
	}
	net.Run(nil)
	for i := 0; i < 10; i++ {
		inject()
	}
	for _, nd := range net.Nodes {
		nd.S.Process()
		nd.S.Status()
		nd.S.DoneClosed()
	}
	r.Trivial = decoded+refused == 0
	r.Sample = fmt.Sprintf("kind=%d parties=%v: %d hostile messages refused by decoding, %d decoded and re-encoded identically", s.kind, s.signers, refused, decoded)
}
