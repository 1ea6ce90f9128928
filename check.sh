#!/bin/bash
# check.sh <property id> [quick|thorough]: decides one property from /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS GOTOOLCHAIN=local
export VERIF_DIR="$here"
bin="$here/checker/bin/athenzcheck"
new=""
[ -x "$bin" ] && new="$(find "$here/checker" -maxdepth 1 \( -name '*.go' -o -name go.mod \) -newer "$bin" -print -quit)"
if [ ! -x "$bin" ] || [ -n "$new" ]; then
  mkdir -p "$here/checker/bin"
  tmp="$(mktemp "$here/checker/bin/build.XXXXXX")"
  if ! (cd "$here/checker" && go build -o "$tmp" .) >&2; then
    rm -f "$tmp"
    echo "the checker does not build" >&2
    exit 2
  fi
  chmod +x "$tmp" && mv -f "$tmp" "$bin"
fi
[ "$1" = setup ] && exit 0
exec "$bin" -repo "${REPO:-/repo}" -check "$1" -tier "${2:-${VERIF_TIER:-quick}}"
