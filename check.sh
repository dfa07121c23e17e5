#!/bin/bash
# check.sh ID [thorough]: decide one property against /repo's working tree.
# check.sh setup: warm the build cache.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin .work evidence replays
(cd tool && go build -o ../bin/tool.$$ . && mv ../bin/tool.$$ ../bin/tool) || exit 2
case "$1" in
setup)
	for k in lib lib-race soap soap-race; do bin/tool build $k bin/worker.$$ || exit 2; done
	rm -f "$PWD/bin/worker.$$"
	exit 0 ;;
replay)
	exec bin/tool replay "$2" ;;
determinism)
	shift
	exec bin/tool determinism "$@" ;;
esac
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec bin/tool check "$1"
