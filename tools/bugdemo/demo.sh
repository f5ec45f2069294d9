#!/bin/bash
# Run with cwd = the repository.  Builds the library from its sources and runs the demonstration:
# exit 0 when it behaves, nonzero when it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cxx="clang++-18 -std=c++20 -O1 -I$here/shim -I$repo -I$here"
for f in $(cd "$repo" && find ink_stroke_modeler -name '*.cc' | grep -v '_test\.cc$\|type_matchers\|fuzz' | sort); do
  $cxx -c "$repo/$f" -o "$tmp/$(echo "$f" | tr / _).o" 2>"$tmp/err.$(echo "$f" | tr / _)" &
done
$cxx -c "$here/demo.cc" -o "$tmp/demo.o" &
for j in $(jobs -p); do wait "$j" || { cat "$tmp"/err.* >&2; echo "build failed" >&2; exit 99; }; done
clang++-18 "$tmp"/*.o -o "$tmp/demo" $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format) -lpthread || exit 99
timeout 120 "$tmp/demo"
