module vengine

go 1.26.0

require golang.org/x/tools v0.52.0

require (
	github.com/anishathalye/porcupine v1.3.1 // indirect
	github.com/google/go-cmp v0.7.0 // indirect
	github.com/google/gofuzz v1.2.0 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/leanovate/gopter v0.2.11 // indirect
	github.com/stretchr/testify v1.12.1 // indirect
	go.etcd.io/gofail v0.2.0 // indirect
	go.uber.org/goleak v1.3.0 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	pgregory.net/rapid v1.3.0 // indirect
)
