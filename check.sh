#!/bin/bash
# check.sh <property id> <quick|thorough>: rebuilds the harness against /repo's working tree, runs one check.
# check.sh build: only the build.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p out evidence harness/target
# Cargo goes by modification times; go by content as well.
sum=$(find /repo/crates /repo/Cargo.toml /repo/Cargo.lock harness/src harness/Cargo.toml -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat harness/target/.sources 2>/dev/null)" != "$sum" ]; then
    cargo clean --offline --manifest-path harness/Cargo.toml -p axmosdb -p axharness >/dev/null 2>&1
    rm -f harness/target/.sources
fi
cargo build --offline --manifest-path harness/Cargo.toml >out/build.log 2>&1 || { tail -40 out/build.log; echo "BUILD FAILED"; exit 3; }
echo "$sum" >harness/target/.sources
[ "$1" = build ] && exit 0
exec ./harness/target/debug/axharness run "$1" "${2:-quick}"
