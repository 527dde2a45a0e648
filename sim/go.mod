module frostsim.local/sim

go 1.26

require (
	filippo.io/edwards25519 v1.0.0-rc.1
	github.com/anishathalye/porcupine v1.3.1
	github.com/taurusgroup/frost-ed25519 v0.0.0
)

replace github.com/taurusgroup/frost-ed25519 => /repo
