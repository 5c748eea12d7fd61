#!/bin/bash
# usage: run.sh ID [quick|thorough]
# Builds the analyzer when it is missing or older than its sources, then
# analyses the current working tree of /repo.
cd "$(dirname "$0")" || exit 1
home=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
build() {
  mkdir -p bin
  ( cd analyzer && GOWORK=off GOFLAGS=-mod=mod GOPROXY=off go build -o "$home/bin/vp.$$" ./cmd/vp ) && mv -f "bin/vp.$$" bin/vp
}
if [ ! -x bin/vp ] || [ -n "$(find analyzer -newer bin/vp -type f -print -quit)" ]; then
  if ! build; then
    echo "the analyzer cannot be built"
    [ "$1" = setup ] || echo "VIOLATION property=$1 replay=run.sh"
    exit 1
  fi
fi
[ "$1" = setup ] && exit 0
bin/vp -check "$1" -tier "${2:-quick}" -repo "${VERIF_REPO:-/repo}" -home "$home"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analyzer stopped with status $rc"
  echo "VIOLATION property=$1 replay=run.sh"
  exit 1
fi
exit $rc
