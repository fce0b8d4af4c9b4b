module verifmc

go 1.22

require github.com/xconnio/wampproto-go v0.0.0

require (
	github.com/fxamacker/cbor/v2 v2.6.0
	github.com/vmihailenco/msgpack/v5 v5.4.1
)

require (
	github.com/hashicorp/go-immutable-radix/v2 v2.1.0 // indirect
	github.com/hashicorp/golang-lru/v2 v2.0.0 // indirect
	github.com/vmihailenco/tagparser/v2 v2.0.0 // indirect
	github.com/x448/float16 v0.8.4 // indirect
	golang.org/x/crypto v0.23.0 // indirect
	golang.org/x/exp v0.0.0-20240525044651-4c93da0ed11d // indirect
)

replace github.com/xconnio/wampproto-go => /repo
