#!/bin/bash
# run.sh PROPERTY [tier]: rebuilds the harness against /repo's working tree and
# decides one property. Exit 0: held; 1: VIOLATION line; anything else: error.
cd "$(dirname "$0")"
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
W=$(mktemp -d /tmp/zzrun.XXXXXX)
trap 'rm -rf "$W"' EXIT
FLAGS=()
# checkptr off in the dependency: its sha3 reads through an over-long array type, harmlessly
case $P in C18) FLAGS=(-race "-gcflags=github.com/blocktree/go-owcrypt/...=-d=checkptr=0");; esac
if ! bash harness/build.sh "$W/zzverif" "${FLAGS[@]}" 2>"$W/build.log"; then
  cat "$W/build.log" >&2
  echo "the harness could not be built against /repo" >&2
  exit 3
fi
TMPDIR=$W "$W/zzverif" -prop "$P" -tier "$TIER" -out "$PWD"
