#!/bin/bash
# build.sh OUT: builds the metac generator from /repo's current tree with the
# stand-in modules of this folder (the real ones are not available offline).
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=${1:?usage: build.sh OUT}
export GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
w=$(mktemp -d)
trap 'rm -rf -- "$w"' EXIT
cat > "$w/go.mod" <<M
module github.com/aodinokov/metac

go 1.23.0

require (
	github.com/Masterminds/sprig/v3 v3.2.3
	github.com/huandu/xstrings v1.4.0
	github.com/mitchellh/copystructure v1.2.0
	github.com/spf13/cobra v1.8.0
	gopkg.in/yaml.v3 v3.0.1
)

replace (
	github.com/Masterminds/sprig/v3 => $here/sprig
	github.com/huandu/xstrings => $here/xstrings
	github.com/mitchellh/copystructure => $here/copystructure
	github.com/spf13/cobra => $here/cobra
)
M
cp "$repo/go.sum" "$w/go.sum"
cd "$repo"
go build -modfile="$w/go.mod" -o "$out" .
