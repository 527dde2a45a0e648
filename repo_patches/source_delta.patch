From 3b23d3e3429523d5d77f58c4d79a7a536b2bb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 01/24] fix: derive the Schnorr challenge from the 64-byte
 digest

h.Sum(buffer) appended the digest to 64 zero bytes; the resulting 128 bytes were
rejected by SetUniformBytes, the error was ignored, and every challenge was 0, so
that a proof could be produced without knowing the secret.
---
 pkg/internal/zk/schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..416bdd1 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,9 +83,8 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
-	_, _ = S.SetUniformBytes(h.Sum(buffer))
+	_, _ = S.SetUniformBytes(h.Sum(nil))
 	return &S
 }
 
-- 
2.43.0


From 2a78f3c932319ec0d09273264926d9aa65ae0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 02/24] fix: abort keygen when a party commits to a polynomial
 of the wrong degree

---
 pkg/frost/keygen/round1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..a24298d 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -20,7 +20,9 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	round.Commitments[from] = msg.KeyGen1.Commitments
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
-	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
+	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
+		return state.NewError(from, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From ac82c36a477b136e733156ab8d4d9dd290fc27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 03/24] fix: return the decoding error of a message's content

A message whose content could not be decoded was returned without content and
without error, and crashed the party that processed it.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From 1239cd1c8cdda2127c2ff79b31ab792f9e7cf988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 04/24] fix: refuse messages without content in HandleMessage

---
 pkg/messages/messages.go | 15 +++++++++++++++
 pkg/state/state.go       |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index 3012b4c..1de001a 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -122,6 +122,21 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 	return err
 }
 
+// HasContent returns true if m carries the content announced by its type.
+func (m *Message) HasContent() bool {
+	switch m.Type {
+	case MessageTypeKeyGen1:
+		return m.KeyGen1 != nil
+	case MessageTypeKeyGen2:
+		return m.KeyGen2 != nil
+	case MessageTypeSign1:
+		return m.Sign1 != nil
+	case MessageTypeSign2:
+		return m.Sign2 != nil
+	}
+	return false
+}
+
 func (m *Message) Equal(other interface{}) bool {
 	otherMsg, ok := other.(*Message)
 	if !ok {
diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..9d67705 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -115,6 +115,11 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// The rounds rely on the content being present
+	if !msg.HasContent() {
+		return s.wrapError(errors.New("message does not contain any data"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
-- 
2.43.0


From 9dc73c7c7308736daa9129ebc1dc0daa1374e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 05/24] fix: do not accept a polynomial without coefficients

The coefficient count overflowed to 0 for the degree 65535, and Constant() then
panicked.
---
 pkg/internal/polynomial/exponent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..3948640 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,14 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From 0a1da26f1d72f01eb75831f25ca5f2f6a2325c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 06/24] fix: keep the first message of every round from every
 party

A message for a later round was refused when the sender's message for the current
round was already there, or when the first round had not been processed yet, so
that the session could never complete. Conversely a second message for a later
round was queued and replaced the first.
---
 pkg/state/state.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 9d67705..a5bbf61 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,9 +105,8 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
+	// Check if we have already received a message of this type from this party.
+	if s.alreadyReceived(msg) {
 		return s.wrapError(errors.New("message from this party was already received"), senderID)
 	}
 
@@ -195,6 +194,21 @@ func (s *State) ProcessAll() []*messages.Message {
 	return newMessages
 }
 
+// alreadyReceived returns true if we have a message from the same party for the same round as msg,
+// which may be the current round or a later one.
+func (s *State) alreadyReceived(msg *messages.Message) bool {
+	if msg.Type == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[msg.From]
+		return exists
+	}
+	for _, queued := range s.queue {
+		if queued.From == msg.From && queued.Type == msg.Type {
+			return true
+		}
+	}
+	return false
+}
+
 func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	for _, otherType := range s.acceptedTypes {
 		if otherType == msgType {
-- 
2.43.0


From 8ff0c7696ec1cb1d99fa34db541053edb8e434d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 07/24] fix: advance as many rounds as the received messages
 allow

ProcessAll completed a single round, so a party whose messages for the next round
had all arrived early waited for ever for another message.
---
 pkg/state/state.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index a5bbf61..630d674 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -136,19 +136,25 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 // These messages are returned to the caller and should be processed.
 // If all went correctly, we take the messages for the next round out of the queue,
 // and move on to the next round.
+// This is repeated for as long as all messages for the next round were already received.
 func (s *State) ProcessAll() []*messages.Message {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if s.done {
-		return nil
+	// All messages for the following rounds may already be in the queue,
+	// so we continue until we are missing a message from some party.
+	var newMessages []*messages.Message
+	for !s.done && len(s.receivedMessages) == int(s.round.PartyIDs().N()-1) {
+		newMessages = append(newMessages, s.processRound()...)
 	}
-
-	// Only continue if we received messages from all
-	if len(s.receivedMessages) != int(s.round.PartyIDs().N()-1) {
+	if s.err != nil {
 		return nil
 	}
+	return newMessages
+}
 
+// processRound finishes the current round, for which all messages have been received.
+func (s *State) processRound() []*messages.Message {
 	for _, msg := range s.receivedMessages {
 		if err := s.round.ProcessMessage(msg); err != nil {
 			s.reportError(err)
-- 
2.43.0


From 759994460957e8b51fe788a9d79768155612f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 08/24] fix: do not panic when keygen times out before its
 first round

---
 pkg/frost/keygen/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..83767ca 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,13 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	// These are nil if we abort before the first round was processed
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 397fbb887cc396c2f3d57d7cea73ccc0cb871a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 09/24] fix: data races between the session's callers and its
 timeout

Err, WaitForError and IsFinished read the outcome without the lock, and the timer
was started before the session was completely initialized.
---
 pkg/state/state.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 630d674..6dbc1dc 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,10 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// The timer may fire before we return
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
@@ -262,6 +266,9 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	if s.err != nil {
 		return s.err
 	}
@@ -272,14 +279,15 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.done
 }
 
-- 
2.43.0


From dc60c618855c98f367146d19464634c112606de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 10/24] fix: do not share commitments between keygen sessions
 and messages

The broadcast message referred to the sum of commitments, so encoding it after the
next round gave another message, and a receiver which was handed a message
zeroed its content when it finished.
---
 pkg/frost/keygen/round0.go | 3 ++-
 pkg/frost/keygen/round1.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..3005f84 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,8 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	// CommitmentsSum will be modified in the next round, so the message gets its own copy
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index a24298d..6dbd958 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -17,7 +17,8 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	// We reset Commitments when we are done, so we can't keep a reference to the message
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
-- 
2.43.0


From c684f9e5c81d99b2787783d4370690578d09f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 11/24] fix: refuse incomplete public key data when decoding it

A missing group key, a missing share or a share with id 0 caused a panic, and a threshold
that does not fit in 16 bits was silently truncated.
---
 pkg/eddsa/public.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..8a49d68 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -85,6 +85,18 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: missing group key")
+	}
+	if out.Threshold < 0 || out.Threshold >= len(out.Shares) {
+		return errors.New("PublicShares: threshold is not valid for the number of shares")
+	}
+	for id, share := range out.Shares {
+		if id == 0 || share == nil {
+			return errors.New("PublicShares: invalid share")
+		}
+	}
+
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
-- 
2.43.0


From bd3e426808766f7b88ca7465c237493b4231f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 12/24] fix: do not truncate the id of a decoded secret share

---
 pkg/eddsa/secret_share.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..22558dc 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -75,6 +76,9 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
+	if out.ID < 1 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: id is not valid")
+	}
 	sk.ID = party.ID(out.ID)
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
-- 
2.43.0


From dbd18d4447ca0f4eda41071cfa277cd5dd64d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 13/24] fix: keygen must not announce success when the output
 was not written

---
 cmd/keygen/keygen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..1002863 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,10 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From c7ac53c38c95158b49aa89b7e4cefe4bd05d07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 14/24] fix: report an incomplete key file in signer instead of
 crashing

---
 cmd/signer/signer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..de561ac 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -53,6 +53,11 @@ func main() {
 		return
 	}
 
+	if kgOutput.Shares == nil || kgOutput.Shares.GroupKey == nil {
+		fmt.Println("public shares are missing")
+		return
+	}
+
 	// get n and t from the keygen output
 	var n party.Size
 	var t party.Size
@@ -74,9 +79,14 @@ func main() {
 	msgsOut2 := make([][]byte, 0, n)
 
 	for _, id := range partyIDs {
+		if secretShares[id] == nil {
+			fmt.Printf("secret share of party %v is missing\n", id)
+			return
+		}
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			return
 		}
 	}
 
-- 
2.43.0


From 8cf742055a3ea2ee6deb07d00b2259bac6032060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 15/24] fix: refuse party lists that are not sorted, distinct
 and non zero

With a duplicate id the session could never complete, and with the id 0 keygen panicked
after the first messages were exchanged.
---
 pkg/state/base_round.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..9b7f004 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -16,6 +16,12 @@ func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
+	// partyIDs must be sorted, and contain neither 0 nor duplicates
+	for i, id := range partyIDs {
+		if id == 0 || (i > 0 && partyIDs[i-1] >= id) {
+			return nil, errors.New("PartyIDs should be sorted, distinct and non zero")
+		}
+	}
 	return &BaseRound{
 		selfID:   selfID,
 		partyIDs: partyIDs,
-- 
2.43.0


From 10ceb99c16a626721f0b7e26a2af7e1f6264e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 16/24] fix: do not use missing random bytes after a short read

---
 pkg/internal/scalar/scalar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..8d6e07e 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -3,6 +3,7 @@ package scalar
 import (
 	"crypto/rand"
 	"fmt"
+	"io"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -11,7 +12,7 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	_, err := io.ReadFull(rand.Reader, bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From 827b0b7cc445f028c7a82e445c0ad00cac2199ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 17/24] fix: hand out the messages of finished rounds when a
 later round fails

Otherwise the other parties never get to see them, and cannot detect the cheater themselves.
---
 pkg/state/state.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 6dbc1dc..022759e 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -151,9 +151,6 @@ func (s *State) ProcessAll() []*messages.Message {
 	for !s.done && len(s.receivedMessages) == int(s.round.PartyIDs().N()-1) {
 		newMessages = append(newMessages, s.processRound()...)
 	}
-	if s.err != nil {
-		return nil
-	}
 	return newMessages
 }
 
-- 
2.43.0


From 7af413880c2fb4e0be0748f03da49a4b2b1b4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 18/24] fix: do not time out after a message was accepted

A timeout that fired while the lock was held aborted the session even if a message had been accepted in the meantime.
---
 pkg/state/state.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 022759e..acb8e2a 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -48,8 +48,11 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
-		s.reportError(NewError(0, errors.New("message timeout")))
-		s.mtx.Unlock()
+		defer s.mtx.Unlock()
+		// A message may have been accepted while we were waiting for the lock, and the timer will fire again
+		if s.timer.expired() {
+			s.reportError(NewError(0, errors.New("message timeout")))
+		}
 	})
 
 	for _, id := range round.PartyIDs() {
@@ -295,22 +298,32 @@ func (s *State) IsFinished() bool {
 type timer struct {
 	t *time.Timer
 	d time.Duration
+
+	deadline time.Time
 }
 
 func newTimer(d time.Duration, f func()) timer {
+	deadline := time.Now().Add(d)
 	var t *time.Timer
 	if d > 0 {
 		t = time.AfterFunc(d, f)
 	}
 	return timer{
-		t: t,
-		d: d,
+		t:        t,
+		d:        d,
+		deadline: deadline,
 	}
 }
 
+// expired returns true if the deadline set by the last accepted message has passed.
+func (t *timer) expired() bool {
+	return !time.Now().Before(t.deadline)
+}
+
 func (t *timer) ackMessage() {
 	if t.t != nil {
 		t.t.Stop()
+		t.deadline = time.Now().Add(t.d)
 		t.t.Reset(t.d)
 	}
 }
-- 
2.43.0


From 2fa3e47aafa7052e8d3cc1c1abbbbdacdf49b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 19/24] fix: refuse signers without a public share instead of
 crashing

---
 pkg/frost/sign/base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 97f6e52..710a1c9 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -71,6 +71,9 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 			return nil, nil, errors.New("base.NewRound: id 0 is not valid")
 		}
 		originalShare := shares.Shares[id]
+		if originalShare == nil {
+			return nil, nil, fmt.Errorf("base.NewRound: no public share for party %d", id)
+		}
 		lagrange, err := id.Lagrange(partyIDs)
 		if err != nil {
 			return nil, nil, fmt.Errorf("base.NewRound: %w", err)
-- 
2.43.0


From 9f0415081b2cfa3afd4545184f4473f4c6cb8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 20/24] fix: refuse a null group key when decoding it

---
 pkg/eddsa/public_key.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/eddsa/public_key.go b/pkg/eddsa/public_key.go
index 87d9816..bde8bbc 100644
--- a/pkg/eddsa/public_key.go
+++ b/pkg/eddsa/public_key.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"crypto/ed25519"
 	"encoding/json"
+	"errors"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -47,5 +48,14 @@ func (pk PublicKey) MarshalJSON() ([]byte, error) {
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (pk *PublicKey) UnmarshalJSON(data []byte) error {
-	return json.Unmarshal(data, &pk.pk)
+	// null would leave us with an element that can't be used
+	var e *ristretto.Element
+	if err := json.Unmarshal(data, &e); err != nil {
+		return err
+	}
+	if e == nil {
+		return errors.New("PublicKey: missing key")
+	}
+	pk.pk.Set(e)
+	return nil
 }
-- 
2.43.0


From ebcfaa29782cf64c021d57e2e323a54a98502bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 21/24] fix: refuse public data with threshold 65535

---
 pkg/eddsa/public.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 8a49d68..bfba990 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -42,7 +42,7 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 		GroupKey:  computeGroupKey(set, shares),
 	}
 
-	if s.Threshold+1 > s.PartyIDs.N() {
+	if s.Threshold >= s.PartyIDs.N() {
 		return nil, errors.New("PublicShares: Threshold should be < N - 1")
 	}
 
-- 
2.43.0


From 2d96306ac8925e4757d002a3ae77c4da602e65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 22/24] fix: refuse keygen arguments that are not positive

---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 1002863..b48856c 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (n > maxN) || (t >= n) || (t < 1) {
 		usage()
 		return
 	}
-- 
2.43.0


From 176554bc7dd1f49ba34c4c3dfdc062b14e9f4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 23/24] fix: NewPartySlice did not end for the largest number
 of parties

---
 pkg/helpers/parties.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..c9e9e09 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,8 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	for i := 1; i <= int(n); i++ {
+		partyIDs = append(partyIDs, party.ID(i))
 	}
 	return partyIDs
 }
-- 
2.43.0


From c07a0e413d2b67873e4e784c1ef0ec893664c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 24/24] fix: PartyRoutine must not drop the messages handed out
 before an abort

---
 pkg/helpers/parties.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index c9e9e09..6dfa682 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -44,7 +44,8 @@ func PartyRoutine(in [][]byte, s *state.State) ([][]byte, error) {
 	if s.IsFinished() {
 		err := s.WaitForError()
 		if err != nil {
-			return nil, err
+			// the messages of earlier rounds let the other parties find the culprit too
+			return out, err
 		}
 	}
 	return out, nil
-- 
2.43.0

