#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -O1 -g -w -pthread -I"$d" -I"$r/src" -I"$r/_build/Release" -I"$r/_build/Release/src" "$d/tree.c" -o "$t/demo" || exit 3
"$t/demo" 4 20
