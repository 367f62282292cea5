#!/bin/bash
# check.sh PROPERTY quick|thorough        run one check
# check.sh replay FILE                    replay a violation
# check.sh setup                          build once (warms the build cache)
# Builds the simulator against the current source of /repo in a scratch
# directory, runs it, and removes the scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${BIBSIM_REPO:-/repo}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/bibsim.XXXXXXXX") || exit 2
cleanup() { case "$tmp" in */bibsim.????????) rm -rf -- "$tmp" ;; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM HUP

export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-buildvcs=false GONOSUMDB='*' GOSUMDB=off CGO_ENABLED=0
export GOCACHE=${GOCACHE:-${HOME:-/tmp}/.cache/go-build}
seed=${VERIF_SEED:-1}

id=${1:?property}
tier=${2:-quick}
file=
if [ "$id" = replay ]; then
  file=$(readlink -f "$2")
  id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
  tier=quick
fi

build() {
  cd "$here/sim" || return 1
  local m="$tmp/go.mod"
  sed "s#=> /repo#=> $repo#" go.mod >"$m" && cp go.sum "$tmp/go.sum" || return 1
  mkdir -p "$tmp/bin" "$tmp/inst" "$tmp/run"
  go run -modfile="$m" ./cmd/instrument -repo "$repo" -out "$tmp/inst" >"$tmp/log" 2>&1 || return 1
  go build -modfile="$m" -overlay "$tmp/inst/overlay.json" -o "$tmp/bin/harness" ./harness >>"$tmp/log" 2>&1 || return 1
  cp "$tmp/inst/sites.json" "$tmp/bin/" || return 1
  case "$id" in
  C13 | C14 | C15 | C16 | C17 | C19)
    CGO_ENABLED=1 go build -race -modfile="$m" -overlay "$tmp/inst/overlay.json" -o "$tmp/bin/harness-race" ./harness >>"$tmp/log" 2>&1 || return 1
    race="-racebin $tmp/bin/harness-race"
    ;;
  esac
}
race=
if [ "$id" = setup ]; then
  build || { tail -c 4000 "$tmp/log" >&2; exit 2; }
  exit 0
fi
if ! build; then
  echo "check.sh: build failed" >&2
  tail -c 4000 "$tmp/log" >&2
  exit 2
fi
if [ -n "$file" ]; then
  "$tmp/bin/harness" -mode replay -file "$file" -dir "$tmp/run" $race -verif "$here" -v
  exit $?
fi
"$tmp/bin/harness" -mode check -prop "$id" -tier "$tier" -seed "$seed" -dir "$tmp/run" $race -verif "$here" ${BIBSIM_ARGS:-}
code=$?
exit $code
