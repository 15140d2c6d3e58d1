#!/bin/bash
# check.sh ID            builds the monitor of property ID from /repo's working tree and runs it
# check.sh build ID...   only builds
# check.sh replay FILE   runs the case of a replay file again
# VERIF_REPO names another tree to check (for development).
set -u
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOFLAGS GO111MODULE=on
export PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin:$PATH
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V
REPO=${VERIF_REPO:-/repo}
cd "$V/harness" || exit 3

build() {
	local id=$1 out="${VERIF_BIN:-$V/bin}/$1" tags= flags= ov=base
	case $id in
	C04|C05|C10|C11|C12|C13|C25|C30) tags=oshook; ov=os ;;
	C18|C19|C28) flags=-race ;;
	C21) tags=archx; ov=arch ;;
	esac
	mkdir -p "$out" || return 3
	python3 "$V/overlay/gen.py" "$ov" "$out" "$REPO" || return 3
	sed "s#=> /repo#=> $REPO#" go.mod > "$out/go.mod" && cp go.sum "$out/go.sum" || return 3
	go build -modfile="$out/go.mod" -overlay="$out/overlay.json" $flags -tags "verif,$tags" -o "$out/vmon" . || return 3
}

case ${1:-} in
build)
	shift
	for id in "$@"; do build "$id" || exit 3; done
	;;
replay)
	id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["check"])' "$2") || exit 3
	build "$id" || exit 3
	exec "${VERIF_BIN:-$V/bin}/$id/vmon" replay "$2"
	;;
C*)
	build "$1" || { echo "cannot build the monitor of $1"; exit 3; }
	exec "${VERIF_BIN:-$V/bin}/$1/vmon" run "$1"
	;;
*)
	echo "usage: check.sh ID | build ID... | replay FILE"; exit 3 ;;
esac
