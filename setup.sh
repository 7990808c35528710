#!/bin/bash
# Offline setup: checks the toolchain and compares the oracle's reference implementations with OpenSSL, libxxhash and
# published vectors. Nothing built here is used by the checks; each check builds what it needs from /repo.
set -e
cd "$(dirname "$0")"
D=$(mktemp -d); trap 'rm -r "$D"' EXIT
g++ -std=c++17 -O2 -w -Iharness harness/selftest.cpp -o "$D/selftest" -lcrypto -ldl
VERIF_OUT="$D/out" "$D/selftest"
for t in clang++ valgrind python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c "import ast,sys; [ast.parse(open(f).read()) for f in ('check.py','checks.py')]"
echo "setup ok"
