#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

ST="pkg/state/state.go"; KG="pkg/frost/keygen"; SG="pkg/frost/sign"

p("C01", "Key generation completes and all parties agree, under any schedule",
  """For every party count, threshold and set of party identifiers, when all parties follow the protocol and every message is eventually
  delivered at least once, key generation ends successfully at every party within a bounded number of steps, whatever delays, reorderings, losses followed by
  retransmission, duplications, slow or late-starting parties occurred.
  All parties then hold the same group key, threshold, party list and public shares; each secret share matches its public share, any threshold+1 secret
  shares reconstruct the private key of the group key, and no smaller number of them does.""",
  ["schedules","fault_sequences","configurations"],
  "all delivery schedules with loss+retransmission, duplication, reordering, partitions that heal and late starts; party counts 2..N, thresholds 1..N-1, arbitrary non-zero 16-bit identifiers",
  "TestKeygen runs one lock-step schedule with 50 consecutive identifiers and one threshold; no message is ever early, late, lost or repeated.",
  [ST, KG+"/round0.go", KG+"/round1.go", KG+"/round2.go"],
  [("State.HandleMessage/ProcessAll", ST), ("keygen rounds", KG)],
  [("receivedMessages/queue","messages buffered for the current and later rounds",ST)],
  ["keygen output", "State.WaitForError"])

p("C02", "Any threshold+1 or more key holders produce one valid Ed25519 signature",
  """For every message and every subset of at least threshold+1 holders of a generated key, when those parties follow the protocol and every message is
  eventually delivered, signing ends successfully at every one of them within a bounded number of steps under any delivery schedule.
  All of them output the same signature, and it verifies for that message under the group key both with the library and with a standard Ed25519 verifier.""",
  ["schedules","fault_sequences","configurations","inputs"],
  "all delivery schedules (loss+retransmission, duplication, reordering, healing partitions, late start), all signer subsets of size >= t+1, arbitrary messages including empty and long ones",
  "TestSign uses one lock-step schedule, one message, consecutive identifiers and threshold N-1 only.",
  [ST, SG+"/base.go", SG+"/round0.go", SG+"/round1.go", SG+"/round2.go", "pkg/eddsa/signature.go"],
  [("Lagrange normalisation", SG+"/base.go"), ("binding factors and shares", SG+"/round1.go"), ("aggregation and final verification", SG+"/round2.go")],
  (), ["sign output","State.WaitForError"])

p("C03", "The outcome does not depend on delivery order, timing, duplication or batching",
  """For fixed parties, inputs and per-party randomness, every message a party emits and every output it produces are byte-for-byte the same under every
  delivery schedule that delivers each message at least once: a message that arrives before its round, even before the receiver has taken its first step, is kept and used
  when its round comes.
  Asking the party to process once after each delivered message is enough for it to advance as far as its received messages allow.""",
  ["schedules"],
  "pairs of schedules over the same session, including all-later-round-messages-first, reversed, starved-peer and batched delivery",
  "The tests only ever deliver complete rounds in order, so a message for a later round is never received early.",
  [ST], [("HandleMessage queueing", ST), ("ProcessAll round advance", ST)],
  [("queue","messages received for a later round",ST)], ["emitted messages","outputs"])

p("C04", "Duplicate, replayed, misdirected or foreign messages have no effect",
  """Delivering to a party any number of repeated messages, second conflicting messages of the same kind from the same sender, messages from itself or from non-participants, messages
  addressed to someone else, messages of already completed rounds or of another protocol, never aborts the party, never makes it emit anything and never changes its
  outputs or emitted messages: the first message of each kind from each participant is the one that counts.
  A message from a non-participant, of a foreign or completed kind, or of a kind already received from its sender is refused with an error; the party's own messages and those addressed to
  others are passed over without one, so that a shared stream of messages can be handed to every party.
  Once the party has finished, every further message is refused with an error.""",
  ["schedules","fault_sequences","inputs"],
  "sessions with such messages injected at arbitrary points of an otherwise honest run, compared with the same session without them",
  "No test injects a duplicate, replayed, conflicting, misaddressed or non-participant message.",
  [ST], [("HandleMessage admission checks", ST)], (), ["HandleMessage result","emitted messages","outputs"])

p("C05", "Key-generation cheating is caught and blamed on the cheater",
  """If a participant's key-generation broadcast lacks a valid proof, bound to that participant, that it knows the secret behind its own contribution, or commits to a polynomial of the wrong degree, or if the
  share it sends to a party does not match its broadcast, then every honest party that processes the offending message ends in an error naming an actual offender and publishes
  no output.
  With the same broadcast delivered to everyone, an honest participant is never named, however many participants cheat together and in whatever order messages arrive.""",
  ["inputs","schedules","fault_sequences"],
  "byzantine participants (one or several, colluding, last mover) using a catalogue of malformed, replayed, copied, rogue-key and mismatched contributions, under arbitrary delivery schedules",
  "No test contains a misbehaving participant; the proof test only checks that an honest proof verifies.",
  [KG+"/round1.go", KG+"/round2.go", "pkg/internal/zk/schnorr.go", "pkg/internal/polynomial/exponent.go"],
  [("Schnorr proof verification", "pkg/internal/zk/schnorr.go"), ("Feldman share check", KG+"/round2.go"), ("degree check on commitment sum", KG+"/round1.go")],
  (), ["State.WaitForError (culprit)","keygen output"])

p("C06", "A party that reports key-generation success holds a consistent key",
  """Whatever the other participants send, including different broadcasts to different parties, a party whose key generation succeeds holds an output that is internally
  consistent: the secret share is its own, matches its entry in the public shares, there is one public share per participant, the shares lie on one polynomial whose degree is the
  agreed threshold, and the group key is that polynomial's value at zero.
  The group key is the sum of the contributions the party received and its own.""",
  ["inputs","schedules","fault_sequences"],
  "byzantine participants sending arbitrary well-formed or malformed contributions, equivocating between receivers, with crashes part-way through a broadcast",
  "Tests only inspect outputs of fully honest runs.",
  [KG+"/round1.go", KG+"/round2.go", "pkg/eddsa/public.go"],
  [("commitment sum and evaluation", KG+"/round2.go")], (), ["keygen output"])

p("C07", "Signing cheaters are caught and blamed; honest signers never are",
  """If a signer broadcasts an identity nonce commitment or a signature share inconsistent with its nonce commitments and its key share, every honest signer that processes it ends in an error
  naming an actual offender and outputs no signature, even when several cheaters choose shares whose errors cancel out.
  With the same broadcasts delivered to every signer, no honest signer is ever named.""",
  ["inputs","schedules","fault_sequences"],
  "one or several colluding byzantine signers sending wrong, replayed, swapped, cancelling or identity values under arbitrary delivery schedules; signers restarted with a damaged key share",
  "No test contains a misbehaving signer.",
  [SG+"/round1.go", SG+"/round2.go"],
  [("identity commitment check", SG+"/round1.go"), ("per-signer share check", SG+"/round2.go")], (), ["State.WaitForError (culprit)","sign output"])

p("C08", "A reported signature is always valid for the session's message and key",
  """Whenever a signing session reports success at any party, the signature it outputs verifies under the group key for exactly the message that session was created with,
  whatever the other parties sent and whatever schedule, equivocation, cross-session replay or corrupted key share was involved.
  In particular sessions with fewer than threshold+1 signers, or whose signers hold different messages, keys or signer lists, never report success.""",
  ["inputs","schedules","fault_sequences","histories","configurations"],
  "byzantine and misconfigured signer sets, equivocation, cross-session replays, undersized signer sets, under arbitrary delivery schedules",
  "Tests only run honest, correctly configured sessions.",
  [SG+"/round2.go", "pkg/eddsa/public_key.go"], [("final verification before output", SG+"/round2.go")], (), ["sign output","State.WaitForError"])

p("C09", "No bytes from the network can crash a party",
  """Whatever bytes arrive, decoding them either fails with an error or yields a message that re-encodes to exactly those bytes; and handing any successfully decoded
  message, or one that carries no content, to a party at any point of any session never crashes or blocks it: it is refused, ignored, used, or makes the party abort with an error.""",
  ["inputs","schedules","fault_sequences"],
  "in-transit corruption (bit flips, truncation, extension, splicing, field overwrites) of real protocol traffic and hostile byte strings, delivered at arbitrary points of key generation and signing",
  "Decoding tests feed a handful of well-formed messages and eight headers; no corrupted message is ever decoded or delivered.",
  ["pkg/messages/messages.go","pkg/messages/header.go","pkg/messages/keygen1.go","pkg/messages/keygen2.go","pkg/messages/sign1.go","pkg/messages/sign2.go","pkg/internal/polynomial/exponent.go","pkg/internal/zk/schnorr.go", ST],
  [("UnmarshalBinary of each message type","pkg/messages"), ("HandleMessage admission checks",ST)], (), ["UnmarshalBinary","HandleMessage","ProcessAll"])

p("C10", "The message timeout aborts a stalled session and only a stalled session",
  """With a positive timeout, a session aborts with an error that names no participant exactly when that much time passes, from its creation or from the last accepted message, without a further accepted message while it is
  unfinished; a refused or ignored message does not extend the deadline, and what counts is elapsed time, whatever steps the wall clock makes meanwhile.
  With a zero timeout a session never aborts for lack of messages, and a finished session is never affected by the passage of time.
  A timeout firing at any moment, including before the first step or while a call is in progress, leaves the party in an ordinary aborted state.""",
  ["schedules","fault_sequences","configurations"],
  "simulated clocks with stalls, jumps to just before/at/after the deadline, message floods of refused messages, for all timeouts and protocol stages",
  "Every test uses a zero timeout; the timer code is never executed by them.",
  [ST], [("timer reset on accepted message",ST), ("timeout abort",ST)], [("timer","deadline of the session",ST)], ["State.Done","State.Err"])

p("C11", "A session has exactly one permanent outcome, visible consistently",
  """A session is either running, succeeded or failed; once it has left the running state its outcome, error and output never change, it emits no more messages, refuses further
  messages, and its completion signal stays raised.
  Output is available exactly when the session succeeded, the error (with the round and culprit of the first failure) exactly when it failed, and waiting for the result returns exactly when the session is finished.""",
  ["schedules","histories","fault_sequences"],
  "arbitrary call histories continued after success, cheating-induced abort and timeout",
  "Tests stop using a state once it finishes and never see an abort.",
  [ST], [("finish/reportError",ST)], [("done/err/doneChan","outcome",ST)], ["State.Done","State.Err","State.WaitForError","State.IsFinished","outputs"])

p("C12", "A session is safe for concurrent callers and behaves atomically",
  """When several goroutines deliver messages to, advance, query and wait on one session while its timeout may fire, every call takes effect atomically at some instant between its start and its
  return, no data race or deadlock occurs, each round's messages are handed out exactly once, and a caller for whom waiting returned without error sees the complete output.
  Handed-out messages and outputs can be used by other goroutines while the session continues.""",
  ["schedules"],
  "all interleavings (sampled by a seeded scheduler at statement granularity) of concurrent deliver/advance/query/wait calls and timer callbacks",
  "All tests drive a state from a single goroutine without a timer.",
  [ST, "pkg/frost/frost.go", KG+"/round0.go"], [("mutex around every operation",ST)], [("mtx","protects the session",ST)], ["all State methods"])

p("C13", "Secrets and nonces are fresh for every session and used at most once",
  """Every signing session, including a retry after a crash, abort or restart with identical inputs, commits to nonces never used by any other session, and each
  committed nonce pair is used for at most one signature share, whatever is delivered, repeated or replayed.
  Likewise every key-generation session uses a fresh polynomial whose coefficients and proof nonce are all distinct.""",
  ["histories","schedules","fault_sequences"],
  "histories of many sessions over the same keys with crashes, restarts, replays, repeated calls and retries",
  "Tests run a single session and never compare two.",
  [SG+"/round0.go", SG+"/round1.go", KG+"/round0.go", "pkg/internal/scalar/scalar.go", "pkg/internal/polynomial/polynomial.go"],
  [("nonce sampling", SG+"/round0.go"), ("coefficient sampling", "pkg/internal/polynomial/polynomial.go")], (), ["emitted messages"])

p("C14", "A faulty randomness source never yields a weak secret",
  """If the randomness source delivers its bytes in several short reads, every secret coefficient, proof nonce and signing nonce is still derived entirely from delivered random bytes: at least 32 bytes of them each, with
  every delivered byte that is consumed affecting some secret, and no two secrets sharing bytes.
  If the source fails, the party emits nothing derived from missing randomness.""",
  ["fault_sequences"],
  "short-read and failure schedules injected into the randomness source at every read of key generation and signing",
  "Tests use the real randomness source, which never returns short or fails.",
  ["pkg/internal/scalar/scalar.go","pkg/internal/polynomial/polynomial.go"],
  [("reading from the randomness source","pkg/internal/scalar/scalar.go")], (), ["emitted messages"])

p("C15", "Finished or aborted sessions retain none of the party's secrets",
  """From the moment a session has finished, whether by success, by detecting a cheater or by timeout at any stage, nothing reachable from the session object contains the party's signing key
  share (plain or weighted), its nonces, its secret polynomial coefficients (or as many of the shares it dealt as determine them) or the share it accumulated.""",
  ["schedules","fault_sequences"],
  "every termination point: success, each kind of abort in each round, timeout before and between rounds",
  "No test inspects a state after it finishes, and none aborts.",
  [ST, KG+"/base.go", SG+"/base.go"], [("Round.Reset called on finish",ST), ("Reset of round data",KG+"/base.go")], (), ["memory reachable from the State"])

p("C16", "Emitted messages are stable snapshots that can be sent or resent at any time",
  """A message returned by a session keeps the same encoding for ever, whatever the session, its peers or other sessions in the process do afterwards, so it may be encoded late, retransmitted, or handed to several in-process
  receivers; and a session does not depend on the caller preserving or not preserving a message object after it was handed over for emission.
  A receiver that is handed the same broadcast object as other receivers neither disturbs them nor is disturbed by them
  (only the private key-generation share message is consumed by the one receiver it is handed to).""",
  ["schedules","histories","fault_sequences"],
  "late encoding and retransmission at every later point of the session, in-process sharing of broadcast objects between sessions finishing or aborting at different times",
  "The tests encode every message immediately after it is produced and decode a private copy per receiver.",
  [KG+"/round0.go", KG+"/round1.go", KG+"/base.go", SG+"/round0.go", "pkg/messages/keygen1.go", "pkg/messages/sign1.go"],
  [("message construction","pkg/messages")], (), ["MarshalBinary of emitted messages"])

p("C17", "Sessions never modify key material and never influence one another",
  """Running any number of sessions, successful or aborted, interleaved in any way over the same key share, public data, party list and message leaves those inputs unchanged, and each
  session's outputs and emitted messages are the same as if it had run alone.
  A key remains usable for new sessions after any failed one.""",
  ["schedules","histories","fault_sequences"],
  "interleavings of several concurrent key-generation and signing sessions sharing key objects within a process, with aborts, timeouts and crashes of some of them",
  "Tests run one session at a time and do not look at inputs afterwards.",
  [SG+"/base.go", KG+"/base.go", ST, "pkg/eddsa/public.go","pkg/eddsa/secret_share.go"], [("copying of inputs at creation",SG+"/base.go")], (), ["inputs after sessions","outputs"])

p("C18", "Stored key material survives crashes: restored exactly or refused",
  """Public key data and secret shares written with the library's encodings and read back after a crash are equal to what was stored and interoperate with parties that never restarted.
  If the stored bytes were damaged (truncated, torn, overwritten, bit-flipped), decoding either refuses them with an error or yields data under which the group key and every public share that is present are
  unchanged, or a share that the other signers detect; it never crashes, and never turns a damaged file into a different group key.""",
  ["crash_points","fault_sequences","inputs"],
  "crash points during writing and storage faults (torn, truncated, bit-flipped, mixed-version) on every stored object, followed by restart and signing",
  "Encoding tests round-trip intact values only.",
  ["pkg/eddsa/public.go","pkg/eddsa/secret_share.go","pkg/eddsa/public_key.go","pkg/ristretto/ristretto.go","pkg/frost/party/id.go"],
  [("consistency check of decoded group key","pkg/eddsa/public.go"), ("canonical decoding","pkg/ristretto/ristretto.go")], (), ["MarshalJSON/UnmarshalJSON","MarshalBinary/UnmarshalBinary"])

p("C19", "Parties interoperate with an independent implementation of the protocol",
  """In a network mixing the library's parties with parties of an independent implementation of the documented protocol (message encodings, proof and binding-factor hashes, share equations), key generation and
  signing complete and agree under any schedule.
  In every session each signature share a library party emits equals d + e*rho + lambda*s*c with rho bound to that signer, the exact message and the full list of signers' commitments, and each key-generation
  message satisfies the documented equations.""",
  ["schedules","configurations","inputs"],
  "mixed networks of real and reference parties of every proportion, all schedules, committee sizes up to several hundred signers",
  "All test parties run the same code, so any change applied consistently on both sides goes unnoticed.",
  [SG+"/round1.go", "pkg/internal/zk/schnorr.go", "pkg/messages/messages.go", "pkg/eddsa/signature.go", "pkg/frost/party/id.go"],
  [("computeRhos",SG+"/round1.go"), ("challenge","pkg/internal/zk/schnorr.go"), ("ComputeChallenge","pkg/eddsa/signature.go")], (), ["bytes on the wire","outputs"])

p("C20", "Misconfigured sessions are refused or fail cleanly, never crash or hang",
  """Creating a session with a threshold of zero or not below the number of parties, with the own identifier absent from the party list, with identifier zero or repeated identifiers, or with signers that hold no share, is refused
  with an error.
  Every session that is created at all can be driven to an end under any schedule without crashing, and a party never reports success when a member of its own party list disagrees with it
  about the threshold (key generation) or about the signer list, message or key (signing).""",
  ["configurations","schedules"],
  "invalid and mutually inconsistent deployment configurations, run through complete sessions under arbitrary schedules",
  "Only one valid configuration per protocol is tested.",
  ["pkg/frost/frost.go", KG+"/base.go", SG+"/base.go", "pkg/state/base_round.go", "pkg/frost/party/idslice.go"],
  [("NewRound validation",KG+"/base.go"), ("NewBaseRound validation","pkg/state/base_round.go")], (), ["NewKeygenState/NewSignState errors","session outcome"])

p("C21", "Share values travel only to their addressee; no message leaks a secret",
  """Over any history of sessions, the secret share computed for a participant appears only in the one message addressed to that participant, every other emitted message is a broadcast of
  public values, and no emitted message, error or exported public output contains the sender's secret key share, polynomial coefficients, nonces or randomness.""",
  ["histories","schedules","fault_sequences"],
  "all messages emitted in histories of honest, byzantine, timed-out and retried sessions, searched for every secret the simulator knows",
  "No test looks at who a message is addressed to or at what it must not contain.",
  [KG+"/round0.go", KG+"/round1.go", SG+"/round0.go", SG+"/round1.go", "pkg/messages/messages.go"],
  [("per-recipient KeyGen2 messages",KG+"/round1.go")], (), ["emitted messages","errors","public output"])

p("C22", "Key holders keep signing through crashes, restarts and partitions",
  """After a successful key generation whose results were stored durably, any threshold+1 holders that are up and connected can sign any further message, no matter which other holders crashed for ever, which restarted from storage,
  and how many earlier sessions were aborted by crashes, partitions or timeouts: once faults stop, a new session succeeds within a bounded time.
  With fewer than threshold+1 holders available no session succeeds.""",
  ["crash_points","fault_sequences","histories","schedules"],
  "long histories of key generation, durable storage, signing attempts, crashes at arbitrary points, restarts, partitions and heals",
  "No test restarts a party, stores a key, or runs more than one session on a key.",
  [ST, SG+"/base.go", KG+"/round2.go", "pkg/eddsa/secret_share.go","pkg/eddsa/public.go"],
  [("key material independent of session state",SG+"/base.go")], (), ["sign outputs over a history"])

p("C23", "The keygen command reports success only for a completely stored key",
  """The key-generation command announces success only if the output file contains the complete result; whatever write error, short write, full disk or crash occurs, it either announces no
  success or the file can be loaded and signs with the announced group key.
  The secrets it stores are those of the group key it prints. Arguments that are no valid threshold and number of parties are refused without a crash and without success.""",
  ["fault_sequences","crash_points"],
  "I/O faults (open failure, ENOSPC, EIO, short writes, crash) at each file operation of the command",
  "The commands have no tests.",
  ["cmd/keygen/keygen.go"], [("writing the output file","cmd/keygen/keygen.go")], (), ["standard output","output file"])

p("C24", "The signer command never crashes on, or signs wrongly with, a damaged key file",
  """Given a key file that is intact the signer command prints a signature that verifies for the given message under the stored group key; given one that is missing, unreadable, truncated, torn or corrupted it
  either reports a failure or prints a signature valid under the original group key, and it never crashes or prints success otherwise.
  A wrong number of arguments is refused without a crash and without success.""",
  ["fault_sequences","crash_points","inputs"],
  "read errors, short reads and every kind of torn or corrupted key file",
  "The commands have no tests.",
  ["cmd/signer/signer.go","pkg/eddsa/public.go","pkg/eddsa/secret_share.go"], [("loading and checking the key file","cmd/signer/signer.go")], (), ["standard output","exit status"])

p("C25", "Excluding the blamed participants lets the honest ones finish",
  """As long as every cheater sends the same broadcasts to everyone, honest parties that abort a key-generation or signing session and repeat it without the participants they blamed (or that stayed silent)
  need at most as many repetitions as there are cheaters, whatever new offence each of them chooses every time; no honest party is ever excluded, and in the end, if more than threshold parties remain, all of them succeed
  and agree on a usable key or a valid signature.""",
  ["schedules","fault_sequences","inputs","histories"],
  "all combinations of cheaters and offences over a history of sessions, all schedules with loss, duplication and partitions that heal",
  "The tests have no cheaters and never repeat a session.",
  [ST, KG+"/round1.go", KG+"/round2.go", SG+"/round1.go", SG+"/round2.go", "pkg/state/error.go"],
  [("culprit of the error","pkg/state/error.go"),("checks of received messages",KG+"/round1.go"),("checks of received messages",SG+"/round2.go")],
  (), ["State.Err","keygen output","sign output"])

p("C26", "A flood of useless messages leaves nothing behind",
  """Refused or ignored messages are not retained: the memory held by a session is bounded by the first message of each kind from each participant, and the work done for one more message does not grow with the number
  of messages refused before. Decoding takes memory in proportion to the bytes received, whatever lengths they announce. Flooding does not keep the session from finishing. A session that has finished, or that has no timeout and is
  dropped by its caller, leaves no goroutine and no timer behind, and its memory is released.""",
  ["histories","inputs","fault_sequences"],
  "floods of repeated, conflicting, foreign, misaddressed, own and undecodable messages at any point of any session; hostile length fields; sessions abandoned at any point",
  "The tests send every message once and never look at memory.",
  [ST, "pkg/messages/keygen1.go", "pkg/messages/marshalling.go"],
  [("refusal of messages before they are stored",ST),("length of the commitments","pkg/messages/keygen1.go"),("timer",ST)],
  [("receivedMessages/queue","messages kept for the current and later rounds",ST)], ["memory reachable from the State","allocations while decoding","goroutines"])

p("C27", "Keys dealt by a trusted dealer are threshold keys like generated ones",
  """For every set of distinct non-zero identifiers and every threshold from 1 to below their number, the dealer's helpers return one share per party and public data that match: any threshold+1 shares determine the returned secret, whose
  public key is the group key, fewer do not; any threshold+1 holders sign under any schedule, together with independent implementations, and fewer never report success. Every call, even concurrent ones with equal arguments, deals a fresh independent
  polynomial and leaves its arguments and earlier keys unchanged. The helper for party sets yields the parties 1 to n for every n. Short reads of the randomness source do not weaken a key, a failing source or an impossible threshold deals none.""",
  ["inputs","configurations","schedules","fault_sequences"],
  "all identifier sets and thresholds, sequences and interleavings of calls, patterns of short and failing reads, delivery schedules of the sessions that use the key",
  "The tests deal keys with consecutive identifiers and only use them in lock step.",
  ["pkg/helpers/keys.go","pkg/eddsa/public.go","pkg/internal/polynomial/polynomial.go","pkg/internal/scalar/scalar.go"],
  [("dealing","pkg/helpers/keys.go"),("public data from public shares","pkg/eddsa/public.go")],
  (), ["helpers.GenerateSecrets","helpers.GeneratePublic","sign output"])

p("C28", "A signature stays what it is on its way to a verifier",
  """Signatures and group keys that are encoded, sent through a network that damages, mixes up and repeats them, and decoded, into fresh or reused objects, are either exactly what was sent or refused or judged not to match: the library's verification never crashes,
  always gives the answer of a standard Ed25519 verifier for the converted values, and accepts, under the group key, only signatures made by a successful session for exactly that message. Every intact signature is accepted. Verifying, converting and encoding never change the
  signature, key or message, also when several verifiers use the same objects at once.""",
  ["inputs","fault_sequences","histories","schedules"],
  "all damages and mixtures of signatures, keys and messages in transit; interleavings of concurrent verifiers",
  "The tests encode and verify a handful of honest signatures.",
  ["pkg/eddsa/signature.go","pkg/eddsa/public_key.go","pkg/ristretto/ristretto.go"],
  [("decoding and encoding","pkg/eddsa/signature.go"),("Verify","pkg/eddsa/public_key.go"),("BytesEd25519","pkg/ristretto/ristretto.go")],
  (), ["Signature.UnmarshalBinary","PublicKey.UnmarshalJSON","PublicKey.Verify","Signature.ToEd25519"])

p("C29", "Parties driven through the byte-level helper behave like parties driven directly",
  """However encoded messages are grouped into batches, ordered, repeated or mixed with bytes that a session refuses, a party driven only through the helper that takes and returns encoded messages emits exactly the messages, and ends with exactly the
  outcome and output, of one driven message by message: nothing that was accepted or handed out is lost, also in the call in which the session aborts. A refused or malformed message is reported by an error and does not affect the session, and the messages
  after it in the batch can be handed over again; the failure of a session is reported in the call in which it occurred and in every later one. The caller's bytes are not changed and may be reused, and the encodings it returns belong to the caller: nothing done to one of them, or later by the session, changes another.""",
  ["schedules","inputs","histories"],
  "all groupings of messages into batches, orders, repetitions and refused messages among them, with honest and cheating participants and timeouts",
  "The tests and commands drive parties in lock step with batches of accepted messages only.",
  ["pkg/helpers/parties.go","pkg/state/state.go","pkg/messages/messages.go"],
  [("PartyRoutine","pkg/helpers/parties.go")],
  (), ["helpers.PartyRoutine result","State.Err","session output"])

p("C30", "Keys, shares and signatures keep their format across versions",
  """What one version of the library stores or sends is what every other version reads: the JSON encodings of a secret share, of the public data and of a group key (names of the fields, base64 standard ristretto255 encodings of points and
  32-byte little-endian canonical scalars, identifiers as decimal map keys), the binary encoding of a share (2 bytes big-endian identifier, then the scalar) and the 64-byte encoding of a signature stay as they are, whatever order and white space
  JSON text has. So holders may be upgraded, downgraded or left alone one by one between key generation and signing: with any mixture of versions among the signers, enough of them sign, under the same group key, and each version
  accepts the other's signatures.""",
  ["configurations","histories","schedules"],
  "all keys, subsets of holders restarted with another version from stored files, JSON spellings, and message schedules with faults",
  "The tests encode and decode with the same code, so a change on both sides goes unnoticed.",
  ["pkg/eddsa/secret_share.go","pkg/eddsa/public.go","pkg/eddsa/public_key.go","pkg/eddsa/signature.go","pkg/frost/party/id.go","pkg/ristretto/ristretto.go"],
  [("encodings of shares","pkg/eddsa/secret_share.go"),("encoding of public data","pkg/eddsa/public.go"),("encoding of signatures","pkg/eddsa/signature.go")],
  [("key files","JSON or binary encodings on disk")], ["SecretShare.MarshalJSON","Public.MarshalJSON","Signature.MarshalBinary"])

p("N01", "Group element encoding is canonical and unambiguous",
  """Every group element has exactly one accepted 32-byte encoding, encoding and decoding are inverse, equal elements have equal encodings, and every non-canonical or invalid string is refused.""",
  ["inputs"], "all 32-byte strings and all group elements",
  "Tests sample vectors from the specification.",
  ["pkg/ristretto/ristretto.go"], [("SetCanonicalBytes/Bytes","pkg/ristretto/ristretto.go")])
p("N02", "Interpolation and polynomial evaluation are exact",
  """For every set of distinct non-zero identifiers, interpolating the evaluations of any polynomial of smaller degree recovers its value at zero, in the clear and in the exponent, and all evaluation methods agree.""",
  ["inputs"], "all polynomials, identifier sets and evaluation points",
  "Tests sample a few random polynomials.",
  ["pkg/frost/party/id.go","pkg/internal/polynomial/polynomial.go","pkg/internal/polynomial/exponent.go"], [("Lagrange","pkg/frost/party/id.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
