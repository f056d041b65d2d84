#!/bin/sh
# build the symbolic executor and one harness crate: a smoke test of the toolchain
cd "$(dirname "$0")" || exit 1
exec ./check C01 --tier quick
