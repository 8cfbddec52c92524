#!/bin/bash
# usage: run.sh ID [quick|thorough]            build the check from /repo's working tree and run it
#        run.sh ID --replay FILE               re-run one recorded failure
# exit 0: held on everything explored; 1: VIOLATION; 2: the check could not be built or run
set -u
{  # read as a whole, so that editing this file does not disturb a run
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=$1; mode=${2:-quick}; file=${3:-}
src="$here/checks/$id.cpp"
[ -f "$src" ] || { echo "no such check $id"; exit 2; }
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
work=$(mktemp -d "$here/.build/$id.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"

# per-check settings are comment lines in the check's source: // @flags ..., // @libs ..., // @units a.cpp b.cpp
tag() { sed -n "s|^// @$1 ||p" "$src" | tr '\n' ' '; }
base="-std=c++20 -w -O1 -g0 -DEIGEN_STACK_ALLOCATION_LIMIT=0 -DSHOW_STACKTRACE=0 -D_GLIBCXX_ASSERTIONS -I$here/harness/fake -I$repo/include -isystem $here/third_party/pybind11/include -isystem /usr/include/eigen3"
cxx=${VERIF_CXX:-g++}
libs="$(tag libs)"
t0=$(date +%s.%N)
# a unit line may compile one source several times with different macros: // @unit file flags...
objs=""; pids=""; n=0
build() { # source, extra flags
  n=$((n+1)); local o="$work/u$n.o"
  $cxx $base $(tag flags) $2 -c "$here/checks/$1" -o "$o" 2>"$work/u$n.err" & pids="$pids $!"; objs="$objs $o"
}
build "$id.cpp" ""
while read -r f fl; do [ -n "$f" ] && build "$f" "$fl"; done < <(sed -n 's|^// @unit ||p' "$src")
ok=1; for p in $pids; do wait "$p" || ok=0; done
if [ $ok = 0 ] || ! $cxx $(tag flags) $objs -o "$work/check" -lnlopt_cxx $libs 2>"$work/link.err"; then
  # a property about what a library user may instantiate is broken by a library that no longer compiles for that use:
  # every error lies in the library (or in Eigen, reached from it), none in the check, and an ordinary use still compiles
  if grep -q '^// @instantiates' "$src" && grep -hE '(^|[^a-z])error:' "$work"/u*.err >"$work/errs" && grep -qE "^$repo/(include|include/../python)/" "$work"/u*.err &&
     ! grep -vqE "^($repo/include|$repo/include/../python|/usr/include/eigen3|$here/third_party/pybind11/include)/" "$work/errs" && $cxx $base -c "$here/harness/probe.cpp" -o "$work/probe.o" 2>/dev/null; then
    f="${VERIF_REPLAYS:-$here/replays}/$id-compile.txt"; { head -3 "$work/errs"; grep -hE "$here/(checks|harness)/" "$work"/u*.err | head -3; } | cut -c1-600 >"$f"
    echo "counterexample property=$id: the library does not compile for a use the property covers"; cat "$f"
    echo "VIOLATION property=$id replay=$f"
    printf '{\n "property": "%s", "tier": "%s", "seed": %s, "level": "exploration",\n "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compilation of the check", "samples": ["compilation"]},\n "assumptions": [], "violations": ["%s"], "wall_s": 0\n}\n' "$id" "$mode" "${VERIF_SEED:-1}" "$f" >"${VERIF_EVIDENCE:-$here/evidence}/$id.json"
    exit 1
  fi
  echo "BUILD FAILED for $id"; cat "$work"/*.err | head -c 4000; exit 2
fi
printf 'built %s in %.1f s\n' "$id" "$(echo "$(date +%s.%N) - $t0" | bc -l 2>/dev/null || echo 0)"
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1 UBSAN_OPTIONS=halt_on_error=1:abort_on_error=1
mkdir -p "${VERIF_EVIDENCE:-$here/evidence}"
args=(--evidence "${VERIF_EVIDENCE:-$here/evidence}/$id.json" --replay-dir "${VERIF_REPLAYS:-$here/replays}" --known "$here/known_findings.txt")
[ -n "${VERIF_ONLY:-}" ] && args+=(--only "$VERIF_ONLY")
if [ "$mode" = --replay ]; then
  "$work/check" "${args[@]}" --replay "$file"; rc=$?
else
  "$work/check" "${args[@]}" --tier "$mode"; rc=$?
fi
exit $rc
}
