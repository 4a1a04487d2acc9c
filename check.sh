#!/bin/bash
# ./check.sh ID [quick|thorough]: builds the model checker against /repo's
# current working tree and runs the check of one property.
cd "$(dirname "$0")" || exit 1
. ./env.sh
ID=$1; TIER=${2:-quick}
mkdir -p .build
BIN=.build/vh-$ID-$$
trap 'rm -rf "$BIN" "$BIN".*' EXIT
build() { # concurrency is checked with replaced synchronization and race detector
	case $ID in C13|C14)
		rm -rf "$BIN.ovl" && mkdir "$BIN.ovl" || return 1
		(cd h && CGO_ENABLED=0 go run ./cmd/ovl /repo ../"$BIN.ovl" &&
			CGO_ENABLED=1 go build -race -overlay ../"$BIN.ovl"/overlay.json -o ../"$BIN" ./cmd/vh) && return 0
		echo "synchronization can not be replaced";;
	esac
	(cd h && CGO_ENABLED=0 go build -o ../"$BIN" ./cmd/vh)
}
build || { echo "build failed"; exit 3; }
case $ID in C19|C20) TOOLS="pack extract";; C24) TOOLS=build;; *) TOOLS=;; esac
for t in $TOOLS; do # command-line tools
	go -C /repo build -mod=readonly -o "$PWD/$BIN.$t" ./cmd/$t || { echo "build failed"; exit 3; }
done
VH_ROOT=$PWD "$BIN" check "$ID" "$TIER"
