module verif

go 1.26.0

require (
	github.com/manhcuongbk56/cypher-go-dsl v0.0.0
	golang.org/x/tools v0.52.0
)

require (
	github.com/google/uuid v1.6.0 // indirect
	github.com/rs/xid v1.2.1 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 // indirect
)

replace github.com/manhcuongbk56/cypher-go-dsl => /repo
