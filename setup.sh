#!/bin/bash
# Nothing to prepare: every check builds what it needs from /repo's current tree. Only checks the tools are there.
set -e
for t in gcc g++ objcopy python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /usr/include/openssl/bn.h
echo setup ok
