#!/bin/sh
# Nothing is kept between runs: every check builds its simulator around /repo's current tree.  Only verify the tools.
set -e
cd "$(dirname "$0")/.."
command -v clang++ >/dev/null
mkdir -p .build evidence replays
python3 -m py_compile bin/check.py bin/simlib.py bin/replay.py
d=$(mktemp -d .build/setup.XXXXXX)
clang++ -std=c++20 -O1 -c sim/rt.cc -o "$d/rt.o"
rm -rf "$(pwd)/$d"
echo setup ok
