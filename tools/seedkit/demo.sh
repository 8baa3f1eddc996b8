#!/bin/bash
# cwd is the repository, built into _build; everything written goes to a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
lib=$(ls "$repo"/_build/source/libmoordyn.so 2>/dev/null) || { echo "no library"; exit 2; }
g++ -std=c++17 -O1 -I"$repo/source" -I"$repo/_build/source" "$here/demo.cpp" -o "$tmp/demo" -L"$(dirname "$lib")" -lmoordyn -Wl,-rpath,"$(dirname "$lib")" || exit 2
cd "$tmp" && timeout 200 ./demo >out.txt 2>err.txt
rc=$?
grep -a "DEMO" out.txt
exit $rc
