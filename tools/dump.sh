# usage: dump.sh <repo dir> <out dir>
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export MIRDUMP_OUT=$2 MIRDUMP_CRATES=dynparser RUSTC_WORKSPACE_WRAPPER=/verif/.build/mirdump
export MIRDUMP_MODELS=/verif/.build/libmodels.rlib
export CARGO_TARGET_DIR=$(mktemp -d /tmp/mdt.XXXX)
mkdir -p $2; rm -f $2/dynparser.json
export CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings -Coverflow-checks=on -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"
cd $1 && cargo +nightly check --offline --lib 2>&1 | grep -E "^error" -A5
rm -rf $CARGO_TARGET_DIR
ls -la $2 | tail -1
