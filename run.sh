#!/bin/bash
# usage: run.sh <property id>     (VERIF_TIER=quick|thorough)
# Builds the check from /verif/mc against /repo's working tree and runs it.
id="$1"
export HOME="${HOME:-/root}" PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOTRACEBACK=all
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
mkdir -p "$root/evidence"
base=/dev/shm; [ -w "$base" ] || base="${TMPDIR:-/tmp}"
scratch="$(mktemp -d "$base/verif-$id-XXXXXX")" || exit 2
export VERIF_SCRATCH="$scratch"
trap 'rm -rf "$scratch"' EXIT
case "$id" in
  S07|I08|T05) kind=sched ;;
  S08|I10) kind=crash ;;
  S*) kind=store ;;
  I*) kind=index ;;
  G*) kind=geo ;;
  T*) kind=tools ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
cd "$root/mc" || exit 2
case "$kind" in
  sched|crash)
    "$root/mc/prepare-$kind.sh" "$scratch" "$id" >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log" >&2; exit 2; } ;;
  *)
    go build -o "$scratch/check" "./cmd/$kind" >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log" >&2; exit 2; } ;;
esac
"$scratch/check" "$id" 2>"$scratch/err"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the process died: a crash inside the code under test is a violation, anything else is an error of the check
  if grep -qE '^(panic|fatal error):' "$scratch/err" && grep -q 'github.com/akhenakh/oureadb' "$scratch/err"; then
    head -c 20000 "$scratch/err" > "$root/evidence/$id.replay.crash.txt"
    head -c 2000 "$scratch/err"
    echo "VIOLATION property=$id replay=$root/evidence/$id.replay.crash.txt"
    exit 1
  fi
  head -c 4000 "$scratch/err" >&2
fi
exit $rc
