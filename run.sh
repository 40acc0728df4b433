#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property from /repo's current source.
# run.sh build: only builds the analyser.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/tool" && GOFLAGS=-mod=mod GOPROXY=off go build -o "$here/bin/gitcheck" .); then
	echo "the analyser did not build" >&2
	exit 3
fi
[ "$1" = build ] && exit 0
cd /repo || exit 3
exec "$here/bin/gitcheck" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$here"
