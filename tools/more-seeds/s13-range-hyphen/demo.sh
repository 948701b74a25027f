#!/bin/bash
# exit 0 when the property holds for the demonstrated input
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -I include "$here/demo.cpp" -o "$tmp/demo"
( ulimit -s 65536; timeout 60 "$tmp/demo" )
