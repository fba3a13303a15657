#!/bin/bash
# build the analysis driver (plain rustc, no dependencies)
set -e
cd "$(dirname "$0")"
O=${1:-/verif/.build/driver}
mkdir -p "$(dirname "$O")"
rustc +nightly --edition=2024 -O -Cdebuginfo=0 -o "$O" src/main.rs -L "$(rustc +nightly --print sysroot)/lib" -Clink-arg=-Wl,-rpath,"$(rustc +nightly --print sysroot)/lib"
