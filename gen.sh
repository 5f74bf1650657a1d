#!/bin/bash
# Regenerates props/registry_gen.go from the harness functions in props.
cd "$(dirname "$0")/props" || exit 1
{ echo "// Code generated by gen.sh. DO NOT EDIT."; echo; echo "package props"; echo; echo "// Registry maps harness names to harnesses."; echo "var Registry = map[string]func(){"
grep -hoE '^func [CK][0-9]{2}_[A-Za-z0-9_]+\(\)' *.go | sed 's/func //; s/()//' | sort | while read -r f; do echo "	\"$f\": $f,"; done
echo "}"; } > registry_gen.go
gofmt -w registry_gen.go
