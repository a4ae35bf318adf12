#!/bin/bash
# runs the commands in ./cmds against the tree in the current directory and compares the output
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/dump.go.txt"}}' "$repo" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/dump" ./zzdemo || exit 3
cd "$tmp" || exit 3
# the numbers of CPUs to try are in ./cpus (all of them if the file is empty)
for n in $(cat "$here/cpus"); do
  pre=""
  [ "$n" != all ] && pre="taskset -c 0-$((n-1))"
  $pre ./dump "$here" "$here/cmds" > out.txt 2> err.txt
  if ! cmp -s out.txt "$here/expected.txt"; then
    echo "output differs from what the files say (CPUs: $n)"
    diff out.txt "$here/expected.txt" | cut -c1-300 | head -20
    exit 1
  fi
done
exit 0
