#!/bin/bash
# run with cwd = the repository: 0 if the property holds in the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'find "$tmp" -mindepth 1 -delete; rmdir "$tmp"' EXIT
sz=$(awk '$1=="github.com/fumiama/imgsz"{print $2} $2=="github.com/fumiama/imgsz"{print $3}' "$repo/go.mod" | head -1)
cat > "$tmp/go.mod" <<M
module demo

go 1.20

require (
	github.com/fumiama/go-docx v0.0.0
	github.com/fumiama/imgsz $sz // indirect
)

replace github.com/fumiama/go-docx => $repo
M
cp "$repo/go.sum" "$tmp/go.sum"
cp "$here"/*.go "$tmp/"
cd "$tmp" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
go build -o demo . || exit 3
timeout 200 ./demo
