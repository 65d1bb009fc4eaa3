module verif/harness

go 1.25.0

require (
	github.com/Azure/go-amqp v1.0.4
	github.com/c-kruse/vanflow v0.0.0
)

require github.com/cenkalti/backoff/v4 v4.2.1

replace github.com/c-kruse/vanflow => /repo

replace github.com/Azure/go-amqp => ../build/goamqp
