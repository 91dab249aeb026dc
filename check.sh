#!/bin/bash
# check.sh <property> <tier>: builds the engine if needed and runs one property's check against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
exec "$here/bin/vengine" -id "$1" -tier "$2" -verif "$here"
