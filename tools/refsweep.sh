#!/bin/bash
# refsweep.sh [NAME...]: runs the checks against scratch copies of /repo with a behaviour-preserving change from refactorings/ applied; each has to stay quiet
set -u
cd "$(dirname "$0")/.." || exit 3
./build.sh >/dev/null || exit 3
all() { basename -s .diff refactorings/*.diff; }
ids() {
  case "$1" in
  ws-*) echo C01 C02 C03 C04 C05 C06 C07 C18 C19 C23 C24 C25 C26 C27 C28 C29 C30 ;;
  cs-*) echo C01 C05 C07 C08 C09 C16 C22 C23 C24 C27 C28 C30 ;;
  cp-json*|cp-new*) echo C01 C06 C07 C18 C20 C21 C23 C24 C27 C28 ;;
  cp-soap*) echo C16 C21 C24 C25 C28 ;;
  soap-*) echo C14 C15 C16 C17 C18 C21 C22 C24 C25 C26 C29 C30 ;;
  actions-*) echo C05 C06 C13 C25 ;;
  json-*) echo C10 C11 C12 C05 C03 C25 ;;
  log-*) echo C07 C26 C05 C16 C20 C22 ;;
  service-*) echo C18 C19 C17 C25 C28 C29 ;;
  *) seq -f C%02g 30 ;;
  esac
}
for n in ${*:-$(all)}; do
  d=$(mktemp -d /tmp/ref.XXXXXX)
  cp -a /repo/. "$d"/
  git -C "$d" apply "$PWD/refactorings/$n.diff" || { echo "$n: does not apply"; rm -rf "$d"; continue; }
  for id in ${IDS:-$(ids "$n")}; do
    s=$SECONDS
    timeout 900 bin/vengine -id "$id" -repo "$d" -tier quick >"$d/.out" 2>&1
    rc=$?
    echo "$n $id exit=$rc $((SECONDS-s))s $(grep -iE 'VIOLATION|unsupported|inconclusive|unconfirmed|disagree|\[[a-z, ]*not|partial' "$d/.out" | head -3 | cut -c1-300)"
  done
  rm -rf "$d"
done
