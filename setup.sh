#!/bin/bash
# Builds the model checker once, to see that it compiles and to warm caches.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p .build evidence replays
(cd h && CGO_ENABLED=0 go build -o ../.build/vh-setup ./cmd/vh) || exit 1
rm -f .build/vh-setup
# the same with replaced synchronization and race detector
rm -rf .build/ovl-setup && mkdir .build/ovl-setup
(cd h && CGO_ENABLED=0 go run ./cmd/ovl /repo ../.build/ovl-setup &&
	CGO_ENABLED=1 go build -race -overlay ../.build/ovl-setup/overlay.json -o ../.build/vh-setup ./cmd/vh) || echo "no race detector"
rm -rf .build/vh-setup .build/ovl-setup
