#!/bin/bash
# Builds /verif/.bin/symgo from /verif/engine. Sourced by check.sh, or run alone.
vdir=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p "$vdir/.bin"
(
	flock 9
	sum=$(cat "$vdir"/engine/*.go "$vdir"/engine/go.mod "$vdir"/engine/go.sum | sha256sum)
	if [ ! -x "$vdir/.bin/symgo" ] || [ "$(cat "$vdir/.bin/sum" 2>/dev/null)" != "$sum" ]; then
		(cd "$vdir/engine" && go build -o "$vdir/.bin/symgo.tmp" .) || exit 1
		mv "$vdir/.bin/symgo.tmp" "$vdir/.bin/symgo"
		echo "$sum" >"$vdir/.bin/sum"
	fi
) 9>"$vdir/.bin/lock"
