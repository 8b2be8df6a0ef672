#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Builds the symbolic engine from /verif/engine (when stale) and decides one
# property against the current working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
. "$here/build.sh" || exit 2
exec "$here/.bin/symgo" check "$@"
