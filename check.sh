#!/bin/bash
# check.sh <property> [--replay FILE]   run the check of one property
# check.sh --build                      build everything from /repo's working tree
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${JJ_REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${JJ_TARGET:-$ROOT/target}"
export JJ_ROOT="$ROOT"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" || exit 3

tree_hash() {
    (cd "$REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

build() {
    exec 9>"$CARGO_TARGET_DIR/.build-lock"
    flock 9
    local h; h="$(tree_hash)"
    # cargo compares modification times; do not rely on them
    if [ "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" != "$h" ]; then
        rm -f "$CARGO_TARGET_DIR/.repo-hash"
        find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/justjson-*' -exec rm -rf {} + 2>/dev/null
    fi
    local log="$CARGO_TARGET_DIR/build.log"
    if ! (cd "$ROOT/harness" && cargo build --release --locked --offline) >"$log" 2>&1; then
        echo "build failed:"
        tail -n 40 "$log"
        return 1
    fi
    echo "$h" >"$CARGO_TARGET_DIR/.repo-hash"
    exec 9>&-
    return 0
}

# The crate under each of its feature sets, for C20. A feature set that does
# not build is something for the check to report.
build_variants() {
    local V="$CARGO_TARGET_DIR/variants"; mkdir -p "$V"
    exec 9>"$V/.build-lock"
    flock 9
    local h; h="$(tree_hash)"
    local stale=no
    [ "$(cat "$V/.repo-hash" 2>/dev/null)" = "$h" ] || stale=yes
    rm -f "$V/.repo-hash"
    local spec name feats profile
    for spec in none::release alloc:alloc:release std:std:release \
        none_heapless:heapless:release alloc_heapless:alloc,heapless:release \
        std_heapless:std,heapless:release std_checked:std:checked none_checked::checked; do
        IFS=: read -r name feats profile <<<"$spec"
        (
            d="$V/$name"; mkdir -p "$d"
            [ $stale = yes ] && find "$d" -maxdepth 3 -path '*/.fingerprint/justjson-*' -exec rm -rf {} + 2>/dev/null
            rm -f "$d/ok"
            cd "$ROOT/variant" && cargo build --profile "$profile" --locked --offline --no-default-features \
                --features "$feats" --target-dir "$d" >"$d/build.log" 2>&1 &&
                cp -f "$d/$profile/libjjvariant.so" "$d/lib.so" && touch "$d/ok"
        ) 9>&- &
    done
    build_narrow "$V" "$stale"
    wait
    echo "$h" >"$V/.repo-hash"
    exec 9>&-
}

# The same with 32-bit addresses: a standard library for wasm32 from the
# sources that come with the toolchain, then the variants against it. It is the
# same toolchain (its tables of characters and so on are the same).
build_narrow() {
    local V="$1" stale="$2" S="$1/sysroot" L src name feats
    for name in narrow_none narrow_std; do mkdir -p "$V/$name"; rm -f "$V/$name/ok" "$V/$name/no-tools"; done
    if [ ! -f "$S/ok" ]; then
        src="$(rustc --print sysroot 2>/dev/null)/lib/rustlib/src/rust/library/vendor"
        rm -rf "$S"; mkdir -p "$S/src"
        printf '[package]\nname = "sysroot32"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[lib]\npath = "lib.rs"\n[profile.release]\ndebug = false\n' >"$S/src/Cargo.toml"
        : >"$S/src/lib.rs"
        L="$S/lib/rustlib/wasm32-unknown-unknown/lib"; mkdir -p "$L"
        (cd "$S/src" && RUSTC_BOOTSTRAP=1 cargo build --release --offline --target wasm32-unknown-unknown \
            -Zbuild-std=std,panic_abort --config "source.crates-io.replace-with='shipped'" \
            --config "source.shipped.directory='$src'" --target-dir "$S/build") 9>&- >"$S/build.log" 2>&1 &&
            find "$S/build" \( -name '*.rlib' -o -name '*.rmeta' \) ! -name 'libsysroot32*' -exec cp -f {} "$L/" \; &&
            ls "$L"/libstd-*.rlib >/dev/null 2>&1 && command -v node >/dev/null && touch "$S/ok"
        rm -rf "$S/build"
    fi
    for name in narrow_none narrow_std; do
        [ -f "$S/ok" ] || { touch "$V/$name/no-tools"; continue; }
        case $name in narrow_none) feats= ;; *) feats=std,heapless ;; esac
        (
            d="$V/$name"
            [ "$stale" = yes ] && rm -rf "$d/wasm32-unknown-unknown"
            rm -f "$d/lib.wasm"
            cd "$ROOT/variant" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="--sysroot $S -Clink-arg=-zstack-size=8388608" cargo build --profile checked \
                --locked --offline --no-default-features --features "$feats" --target wasm32-unknown-unknown --target-dir "$d" >"$d/build.log" 2>&1 &&
                find "$d/wasm32-unknown-unknown/checked" -maxdepth 1 -name jjvariant.wasm -exec cp -f {} "$d/lib.wasm" \; && [ -f "$d/lib.wasm" ] && touch "$d/ok"
        ) 9>&- &
    done
}

# The coverage-guided search of the thorough tier.
build_fuzz() {
    local san=none; [ "$1" = C03 ] && san=address
    local F="$CARGO_TARGET_DIR/fuzz-$san"; mkdir -p "$F"
    exec 9>"$F/.build-lock"
    flock 9
    local h; h="$(tree_hash)"
    if [ "$(cat "$F/.repo-hash" 2>/dev/null)" != "$h" ]; then
        rm -rf "$F/.repo-hash" "$F/bin"
        find "$F" -maxdepth 4 -path '*/.fingerprint/justjson-*' -exec rm -rf {} + 2>/dev/null
    fi
    if (unset RUSTUP_TOOLCHAIN; cd "$ROOT/fuzz" && CARGO_TARGET_DIR="$F" cargo +nightly fuzz build --fuzz-dir . -s "$san" choices) 9>&- >"$F/build.log" 2>&1; then
        find "$F" -name choices -type f -perm -1 -printf '%T@ %p\n' | sort -n | tail -n 1 | cut -d' ' -f2- >"$F/bin"
        echo "$h" >"$F/.repo-hash"
        JJ_FUZZ_BIN="$(cat "$F/bin")"
        export JJ_FUZZ_BIN
    else
        echo "no coverage-guided search: the fuzzer does not build"
        tail -n 3 "$F/build.log"
    fi
    exec 9>&-
}

build || exit 3
case "${1:-}" in
--build) build_variants; exit 0 ;;
C20) build_variants ;;
esac
if [ "${VERIF_TIER:-quick}" = thorough ] && [ "${2:-}" != --replay ]; then build_fuzz "$1"; fi
exec "$CARGO_TARGET_DIR/release/jjcheck" "$@"
