export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
