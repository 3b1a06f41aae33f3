module mahoverif

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/leftmike/maho v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/google/btree v1.1.2 // indirect

replace github.com/leftmike/maho => /repo
