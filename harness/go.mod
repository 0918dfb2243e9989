module verif/harness

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	go.f110.dev/go-memcached v0.0.0
)

replace go.f110.dev/go-memcached => /repo
