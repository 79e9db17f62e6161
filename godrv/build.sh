#!/bin/bash
# build.sh OUT: builds the driver with the packages of /repo's current tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
stubs=$here/../gostubs
repo=${REPO:-/repo}
out=${1:?usage: build.sh OUT}
export GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
w=$(mktemp -d)
trap 'rm -rf -- "$w"' EXIT
cp "$here/main.go" "$w/"
cat > "$w/go.mod" <<M
module godrv

go 1.23.0

require (
	github.com/aodinokov/metac v0.0.0
	github.com/mitchellh/copystructure v1.2.0
	gopkg.in/yaml.v3 v3.0.1
)

replace (
	github.com/aodinokov/metac => $repo
	github.com/Masterminds/sprig/v3 => $stubs/sprig
	github.com/huandu/xstrings => $stubs/xstrings
	github.com/mitchellh/copystructure => $stubs/copystructure
	github.com/spf13/cobra => $stubs/cobra
)
M
cp "$repo/go.sum" "$w/go.sum"
cd "$w"
go build -o "$out" .
