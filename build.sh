#!/bin/bash
# Builds the harness and four variants of nd from /repo's current working tree:
# {x86-64 (naive code), x86-64-v3 (AVX2 code)} x {real block size, small block size (--cfg nd_verif)}.
# Everything is written under /verif/target.
V=$(cd "$(dirname "$0")" && pwd)
R=${NDV_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTFLAGS
T=$V/target
B=$T/bins
mkdir -p "$B" || exit 3
exec 9>"$T/lock"
flock 9 || exit 3

CPUS="x86-64"
if grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo && grep -qw fma /proc/cpuinfo; then
    CPUS="x86-64 x86-64-v3"
fi

put() { # install only if it differs, atomically
    cmp -s "$1" "$2" || { cp "$1" "$2.tmp.$$" && mv -f "$2.tmp.$$" "$2"; }
}

# cargo compares time stamps; a content hash makes sure that a changed tree is always rebuilt
stale() { # stale TARGET_DIR PACKAGE DIR...
    local d=$1 pkg=$2 h
    shift 2
    h=$(find "$@" -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$d/content.$pkg" 2>/dev/null)" != "$h" ]; then
        find "$d/release/.fingerprint" -maxdepth 1 -name "$pkg-*" -exec rm -rf {} + 2>/dev/null
    fi
    mkdir -p "$d"
    echo "$h" >"$d/content.$pkg.new"
}
fresh() { mv -f "$1/content.$2.new" "$1/content.$2"; }

nd() {
    local cpu=$1
    local d=$T/nd-$cpu
    stale "$d" nd "$R/src" "$R/Cargo.toml" "$R/Cargo.lock"
    export RUSTFLAGS="-C target-cpu=$cpu" CARGO_TARGET_DIR=$d
    cargo rustc --release --offline --locked --manifest-path "$R/Cargo.toml" --bin nd -- --cfg nd_verif || return 1
    put "$d/release/nd" "$B/$cpu-small" || return 1
    cargo rustc --release --offline --locked --manifest-path "$R/Cargo.toml" --bin nd || return 1
    put "$d/release/nd" "$B/$cpu-real" || return 1
    fresh "$d" nd
}

harness() {
    stale "$T/harness" ndv "$V/harness/src" "$V/harness/Cargo.toml" "$V/harness/Cargo.lock"
    CARGO_TARGET_DIR=$T/harness cargo build --release --offline --locked --manifest-path "$V/harness/Cargo.toml" || return 1
    fresh "$T/harness" ndv
}

shim() {
    gcc -O1 -fno-delete-null-pointer-checks -shared -fPIC -o "$B/shim.so.new" "$V/harness/shim.c" -ldl || return 1
    put "$B/shim.so.new" "$B/shim.so"
}

pids=()
logs=()
run() {
    local log=$T/build-$1-$2.log
    "$@" >"$log" 2>&1 &
    pids+=($!)
    logs+=("$log")
}
for c in $CPUS; do run nd "$c"; done
run harness x
run shim x
rc=0
for i in "${!pids[@]}"; do
    if ! wait "${pids[$i]}"; then
        echo "build failed: ${logs[$i]}" >&2
        tail -40 "${logs[$i]}" >&2
        rc=3
    fi
done
exit $rc
