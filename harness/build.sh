#!/bin/bash
# build.sh OUT [extra go build flags]: builds the harness against /repo's working tree.
set -e
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=1 GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
H=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1; shift
W=$(mktemp -d /tmp/zzbuild.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp "$H/verif.mod" "$W/verif.mod"; cp "$H/verif.sum" "$W/verif.sum"
{
  echo '{"Replace":{'
  sep=
  for f in "$H"/src/*.go; do
    printf '%s"%s/zzverif/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=$',\n'
  done
  echo '}}'
} > "$W/overlay.json"
cd "$REPO"
go build -mod=mod -modfile="$W/verif.mod" -overlay "$W/overlay.json" "$@" -o "$OUT" ./zzverif
