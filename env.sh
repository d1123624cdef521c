# Sourced: the offline Go environment, the same toolchain the repository is tested with.
export HOME=${HOME:-/root}
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GODEBUG=randautoseed=0
export CGO_ENABLED=0
unset GOOS GOARCH
