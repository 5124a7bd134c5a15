#!/bin/bash
# builds the MIR driver and the model crate into $1 (offline, nightly)
set -e
mkdir -p "$1"
out=$(cd "$1" && pwd)
cd "$(dirname "$0")"
rustc +nightly --edition 2021 -O -A warnings -o "$out/mirdump" src/main.rs
rustc +nightly --edition 2021 -A warnings --crate-type rlib --crate-name models -Zmir-opt-level=0 -Zalways-encode-mir -Coverflow-checks=on -o "$out/libmodels.rlib" models/lib.rs
