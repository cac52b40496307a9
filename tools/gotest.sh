#!/bin/bash
# gotest.sh <repo> <args...>: go test with the sectools stand-in
. /verif/env.sh; t=$(mktemp -d); trap 'rm -r "$t"' EXIT; cd $1; shift
cp go.mod $t/m.mod; cp go.sum $t/m.sum
printf '\nreplace github.com/hyp3rd/sectools => /verif/stubs/sectools\n' >> $t/m.mod
go test -modfile=$t/m.mod -vet=off -count=1 -timeout 300s "$@"
