# tool chain for building the harness together with /repo's packages, offline (GOPATH mode)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off CGO_ENABLED=0
export GOPATH=/opt/vp/gopath GOCACHE=$VF_HOME/.cache/gocache
