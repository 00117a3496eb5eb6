module verif.local/mc

go 1.22

require github.com/flukeish/pmml v0.0.0

require (
	github.com/mattn/go-shellwords v1.0.6 // indirect
	github.com/mcuadros/go-defaults v1.1.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
)

replace github.com/flukeish/pmml => /repo
