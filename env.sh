export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GONOSUMDB='*' GOSUMDB=off GONOSUMCHECK=1 GOTELEMETRY=off
