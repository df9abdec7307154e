#!/bin/bash
# prepare-crash.sh SCRATCH ID: builds SCRATCH/check with the engines' (and /repo's store packages') file operations going
# through package osx, which records them. The copies live in SCRATCH; /repo and the module cache are only read.
set -u
scratch="$1"
cd "$(dirname "$0")" || exit 2
cp go.mod "$scratch/go.mod" && cp go.sum "$scratch/go.sum" || exit 2
for m in github.com/boltdb/bolt github.com/syndtr/goleveldb github.com/dgraph-io/badger; do
  src="$(go list -m -f '{{.Dir}}' "$m")" || exit 2
  dst="$scratch/$(basename "$m")"
  cp -r "$src" "$dst" && chmod -R u+w "$dst" || exit 2
  find "$dst" -name '*_test.go' -delete
  find "$dst" -name '*.go' -print0 | xargs -0 sed -i -E 's#^(import )?(\s*)"os"$#\1\2os "verif/mc/crash/osx"#'
  [ -f "$dst/go.mod" ] || printf 'module %s\n\ngo 1.16\n' "$m" > "$dst/go.mod"
  echo "replace $m => $dst" >> "$scratch/go.mod"
done
sed -i -e 's#syscall\.Fdatasync(int(db\.file\.Fd()))#osx.Fdatasync(db.file)#' -e 's#^import ($#import (\n\tosx "verif/mc/crash/osx"#; s#^\t"syscall"$##' "$scratch/bolt/bolt_linux.go"
grep -q '^import (' "$scratch/bolt/bolt_linux.go" || sed -i 's#^import.*#import osx "verif/mc/crash/osx"#' "$scratch/bolt/bolt_linux.go"
# the store packages of the repository
mkdir -p "$scratch/over"
n=0
{
  echo '{"Replace":{'
  sep=
  while IFS= read -r f; do
    grep -qE '^(import )?\s*"os"$' "$f" || continue
    n=$((n+1))
    sed -E 's#^(import )?(\s*)"os"$#\1\2os "verif/mc/crash/osx"#' "$f" > "$scratch/over/$n.go"
    printf '%s"%s":"%s"\n' "$sep" "$f" "$scratch/over/$n.go"
    sep=,
  done < <(find /repo/store -name '*.go' ! -name '*_test.go' ! -path '*/store/test/*')
  echo '}}'
} > "$scratch/over/overlay.json"
build() { go build -modfile="$scratch/go.mod" "$@" -o "$scratch/check" ./cmd/crash; }
build -overlay "$scratch/over/overlay.json" || build
