module verif/harness

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/flu-network/client v0.0.0
)

replace github.com/flu-network/client => /repo
