#!/bin/bash
# prepare-sched.sh SCRATCH ID: builds SCRATCH/check with the store and index packages of /repo (and bolt's locks)
# instrumented for the scheduler. The copies live in SCRATCH; /repo is only read.
set -u
scratch="$1"
cd "$(dirname "$0")" || exit 2
mkdir -p "$scratch/inst" || exit 2
go build -o "$scratch/instr" ./cmd/instr || exit 2
boltsrc="$(go list -m -f '{{.Dir}}' github.com/boltdb/bolt)" || exit 2
mkdir -p "$scratch/bolt" && cp "$boltsrc"/*.go "$scratch/bolt/" && chmod -R u+w "$scratch/bolt" && rm -f "$scratch"/bolt/*_test.go || exit 2
sed -i 's|^\(\s*\)"sync"$|\1sync "verif/mc/sched/syncx"|' "$scratch"/bolt/*.go
printf 'module github.com/boltdb/bolt\n\ngo 1.16\n' > "$scratch/bolt/go.mod"
cp go.mod "$scratch/go.mod" && cp go.sum "$scratch/go.sum" || exit 2
echo "replace github.com/boltdb/bolt => $scratch/bolt" >> "$scratch/go.mod"
repo=/repo
dirs=()
for d in store store/gtreap store/boltdb store/goleveldb store/badger store/null index index/geodata s2tools; do
  [ -d "$repo/$d" ] && dirs+=("$repo/$d")
done
# new packages of the repository are instrumented as well
while read -r d; do
  case " ${dirs[*]} " in *" $d "*) ;; *) dirs+=("$d") ;; esac
done < <(find "$repo" -name '*.go' ! -name '*_test.go' -printf '%h\n' | sort -u | grep -v -e "^$repo/store/test" -e "^$repo/cmd" -e "/vendor" -e "/\.")
# once as it is, once with the race detector, which does not look at the scheduler and the harness
build() {
  go build -modfile="$scratch/go.mod" "$@" -o "$scratch/check" ./cmd/sched &&
    CGO_ENABLED=1 go build -race -gcflags=all=-d=checkptr=0 -gcflags=verif/mc/...='-race=false' -modfile="$scratch/go.mod" "$@" -o "$scratch/check-race" ./cmd/sched
}
"$scratch/instr" "$scratch/inst" "${dirs[@]}" && build -overlay "$scratch/inst/overlay.json" && exit 0
"$scratch/instr" -nosplit "$scratch/inst" "${dirs[@]}" && build -overlay "$scratch/inst/overlay.json" && exit 0
# code the instrumentation cannot handle is still explored between its locks
build
