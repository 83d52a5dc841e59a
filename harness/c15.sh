#!/bin/bash
# c15.sh: instruments a copy of the package, builds the explorer with the race detector and runs it.
set -u
cd "$(dirname "$0")"
go build -o ../.build/instrument ./cmd/instrument || { echo "build failed"; exit 2; }
repo=$(go list -m -f '{{.Dir}}' github.com/fumiama/go-docx)
src="$PWD/../.build/c15src"
mkdir -p "$src" && find "$src" -type f -delete
../.build/instrument "$repo" "$src" || { echo "instrumentation failed"; exit 2; }
go build -race -overlay "$src/overlay.json" -o ../.build/conc ./cmd/conc || { echo "build failed"; exit 2; }
cd .. && exec ./.build/conc "$@"
