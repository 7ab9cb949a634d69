#!/bin/bash
# run.sh build            build the harness (and the CLI) from /repo's working tree
# run.sh check ID TIER    rebuild, then decide one property
# run.sh replay FILE      rebuild, then decide one saved case
# run.sh list
set -u
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else
  export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off; unset GOROOT
fi
export GOFLAGS=-mod=readonly GOWORK=off
export VERIF_ROOT=$here
mkdir -p "$here/.build" "$here/evidence" || exit 3
build() {
  (cd "$here/harness" && go build -o "$here/.build/verif" .) || return 3
  (cd /repo && go build -o "$here/.build/go-chaff-cli" ./cli) || return 3
  export VERIF_CLI=$here/.build/go-chaff-cli
}
race() {
  (cd "$here/harness" && go build -race -o "$here/.build/verif-race" .) || return 3
  export VERIF_RACE=$here/.build/verif-race
}
case "${1:-}" in
  build) build && race; exit $? ;;
  check) build >&2 || { echo "build failed" >&2; exit 3; }
         if [ "$2" = C19 ]; then race >&2 || { echo "build failed" >&2; exit 3; }; fi
         export VERIF_SEED=${VERIF_SEED:-1}
         exec "$here/.build/verif" check "$2" "${3:-${VERIF_TIER:-quick}}" ;;
  replay) build >&2 || exit 3
          if grep -q '"property": "C19"' "$2"; then race >&2 || exit 3; fi
          exec "$here/.build/verif" replay "$2" ;;
  list) build >&2 || exit 3; exec "$here/.build/verif" list ;;
  *) echo "usage: run.sh build|check ID TIER|replay FILE|list" >&2; exit 2 ;;
esac
