# Offline Go environment of the checks.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GONOSUMDB='*' GOWORK=off
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
unset GOROOT GOOS GOARCH GORACE GODEBUG GOMAXPROCS GOMEMLIMIT GOGC
