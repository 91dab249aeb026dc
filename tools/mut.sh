#!/bin/bash
# mut.sh PATCH ID... : runs checks against a scratch copy of /repo with a patch applied (PATCH may be -COMMIT to undo a commit, or - for none)
set -u
case "$1" in -*) ;; *) set -- "$(realpath "$1")" "${@:2}" ;; esac
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d"/
cd "$d" || exit 3
case "$1" in
-) ;;
-*) git revert -n "${1#-}" >/dev/null 2>&1 || { echo "cannot revert"; git diff --name-only --diff-filter=U; rm -rf "$d"; exit 3; } ;;
*) git apply "$1" || { rm -rf "$d"; exit 3; } ;;
esac
shift
for id in "$@"; do
  /verif/bin/vengine -id "$id" -repo "$d" -tier quick 2>&1 | tail -${TAIL:-6}
done
rm -rf "$d"
