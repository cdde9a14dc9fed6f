module verif

go 1.26

require (
	github.com/gobwas/ws v1.4.0
	github.com/gorilla/websocket v1.5.3
	github.com/kataras/neffos v0.0.0
	github.com/mediocregopher/radix/v3 v3.8.1
	github.com/nats-io/nats.go v1.40.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/gobwas/httphead v0.1.0 // indirect
	github.com/gobwas/pool v0.2.1 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/klauspost/compress v1.18.0 // indirect
	github.com/nats-io/nkeys v0.4.9 // indirect
	github.com/nats-io/nuid v1.0.1 // indirect
	golang.org/x/crypto v0.31.0 // indirect
	golang.org/x/sync v0.12.0 // indirect
	golang.org/x/sys v0.28.0 // indirect
	golang.org/x/xerrors v0.0.0-20191011141410-1b5146add898 // indirect
)

replace github.com/kataras/neffos => /repo

// copies made by tools/thirdparty.py
replace github.com/mediocregopher/radix/v3 => ../.thirdparty/mediocregopher

replace github.com/nats-io/nats.go => ../.thirdparty/nats-io
