#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker and decides one property of /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
go build -o bin/symgo ./cmd/symgo || exit 2
[ "$1" = --build ] && exec go build -o /dev/null ./cmd/replay
if ! go build ./props 2> /dev/null; then
	# an exported function is gone or has other parameters: make the table of all functions again for this run
	trap 'git checkout -q -- props/c18_api.go 2> /dev/null' EXIT
	go run ./cmd/apigen > /dev/null 2>&1
fi
bin/symgo check "$@"
