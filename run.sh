#!/bin/bash
# run.sh ID [vdrive flags] | run.sh --setup | run.sh --manifest
# Decides one property against /repo's working tree. Exit 0: held on
# everything explored; 1: VIOLATION; anything else: the check could not run.
set -e
cd "$(dirname "$(readlink -f "$0")")"
root=$PWD
. /opt/vp/env.sh
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p .work/bin
(
  flock 9
  cd mc
  CGO_ENABLED=0 GOFLAGS=-mod=mod go build -o "$root/.work/bin/vdrive" ./cmd/vdrive
) 9>.work/build.lock
case "$1" in
  --setup) exec .work/bin/vdrive -root "$root" -setup ;;
  --manifest) exec .work/bin/vdrive -root "$root" -manifest ;;
esac
id=$1; shift || true
exec .work/bin/vdrive -root "$root" "$@" "$id"
