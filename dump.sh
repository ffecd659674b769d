#!/bin/bash
# Rebuilds the driver if needed and dumps the MIR of geokit and obs from /repo's working tree.
set -e
B=${GK_BUILD:-/verif/.build}
mkdir -p $B/dump
export HOME=${HOME:-/root} CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
(cd /verif/driver && CARGO_TARGET_DIR=$B/driver cargo +nightly build --offline -q)
rm -rf $B/target/debug/build/geokit $B/target/debug/build/obs $B/target/debug/.fingerprint/geokit-* $B/target/debug/.fingerprint/obs-*
rm -f $B/dump/*.json
export RUSTC_WRAPPER=$B/driver/debug/mirdump MIRDUMP_CRATES=geokit,obs,sample_s2 MIRDUMP_OUT=$B/dump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings --cfg geokit_verif"
cd /verif/obs
if CARGO_TARGET_DIR=$B/target cargo +nightly check --offline -q --features ${1:-all}; then exit 0; fi
# only G15 needs the guarded access to crate-private shifts: the others can do without it
case ${1:-all} in *g15*|all) exit 1;; esac
rm -rf $B/target2/debug/.fingerprint/geokit-* $B/target2/debug/.fingerprint/obs-*; rm -f $B/dump/*.json
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
CARGO_TARGET_DIR=$B/target2 cargo +nightly check --offline -q --features $1
