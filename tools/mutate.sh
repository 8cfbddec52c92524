#!/bin/bash
# usage: mutate.sh [-s] [-d] (PATCH | -r COMMIT) CHECK...
# apply PATCH to (or revert COMMIT in) a scratch clone of /repo and run the checks against it
#   -s  build the clone and run the repository's stable tests first     -d  run the demo beside PATCH on both trees
# prints one line per check: CAUGHT / MISSED / BROKEN; seeds from VERIF_SEED
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
tests=0; demo=0; rev=""
while getopts sdr: o; do case $o in s) tests=1;; d) demo=1;; r) rev=$OPTARG;; *) exit 2;; esac; done
shift $((OPTIND-1))
d=$(mktemp -d /tmp/m.XXXXXX); trap 'rm -rf "$d"' EXIT
git clone -q /repo "$d/r"
if [ -n "$rev" ]; then
  name=$rev; git -C "$d/r" -c user.name=x -c user.email=x@x revert --no-commit "$rev" >/dev/null 2>&1 || { echo "$name CONFLICT"; exit 3; }
else
  p=$(realpath "$1"); shift; name=$(basename "$(dirname "$p")")
  git -C "$d/r" apply "$p" || { echo "$name does not apply"; exit 3; }
fi
if [ $demo = 1 ]; then
  (cd /repo && timeout 300 bash "$(dirname "$p")/demo.sh" >"$d/d0" 2>&1); a=$?
  (cd "$d/r" && timeout 300 bash "$(dirname "$p")/demo.sh" >"$d/d1" 2>&1); b=$?
  echo "$name demo clean=$a patched=$b: $(tail -1 "$d/d1")"
  [ $a = 0 ] || tail -5 "$d/d0"
fi
if [ $tests = 1 ]; then
  bash "$here/tools/stable.sh" "$d/r" "$d/t" && echo "$name stable tests pass" || echo "$name STABLE TESTS FAIL"
fi
for c in "$@"; do
  VERIF_REPO="$d/r" VERIF_EVIDENCE="$d" timeout 900 "$here/run.sh" "$c" quick >"$d/out.$c" 2>&1; rc=$?
  case $rc in
    1) echo "$name $c CAUGHT $(grep -m1 -a 'VIOLATION' "$d/out.$c" | cut -c1-200) $(grep -m1 -a -A1 'sig' "$d/out.$c" | head -1 | cut -c1-160)";;
    0) echo "$name $c MISSED";;
    *) echo "$name $c BROKEN rc=$rc $(tail -2 "$d/out.$c")";;
  esac
done
