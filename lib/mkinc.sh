#!/bin/bash
# mkinc.sh DIR: builds DIR/sharemind = stand-in headers + links to /repo/src.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
mkdir -p "$1/sharemind/compiler-support"
ln -sf "$V"/harness/stub/sharemind/*.h "$1/sharemind/"
ln -sfn "$V"/harness/stub/sharemind/compiler-support/*.h "$1/sharemind/compiler-support/"
for f in "$R"/src/*; do
  case "$f" in */compiler-support) ln -sfn "$f"/* "$1/sharemind/compiler-support/";;
  *) ln -sfn "$f" "$1/sharemind/";; esac
done
