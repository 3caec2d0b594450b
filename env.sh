export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
unset GORACE GODEBUG GOMAXPROCS
