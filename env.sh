export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export HOME="${HOME:-/root}"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
