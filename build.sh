#!/bin/bash
# Builds the harness (and, with "cli", the command line tools) from /repo's working tree, offline.
# Usage: build.sh [cli] [Cxx]      with a property, the harness is built for that one alone, as target/bin/vharness-Cxx
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN CARGO_ENCODED_RUSTFLAGS
target=$here/target
mkdir -p "$target"
exec 9>"$target/.lock"
flock 9
log=$target/build.log
# cargo decides by file times; in copies of /repo these may lie, so a content stamp decides whether to forget the old build
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
old=$(cat "$target/.stamp" 2>/dev/null)
if [ "$stamp" != "$old" ]; then
    for d in "$target/harness/release/.fingerprint" "$target/cli/release/.fingerprint"; do
        for n in atsc vsri wavbrro csv-compressor tools vharness; do
            for f in "$d/$n"-*; do [ -e "$f" ] && rm -rf "$f"; done
        done
    done
    echo "$stamp" > "$target/.stamp"
fi
fail() { echo "ERROR: build failed: $1" >&2; tail -40 "$log" >&2; rm -f "$target/.stamp"; exit 2; }
python3 "$here/tools/vendor.py" "$here/harness/Cargo.lock" "$target/vendor" > "$log" 2>&1 || fail vendor
python3 "$here/tools/vendor.py" /repo/Cargo.lock "$target/vendor" >> "$log" 2>&1 || fail vendor
# the same compiler for both: some checks compare what the tools write with what the library computes, bit for bit
src=(--config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$target/vendor\"")
cli= prop=
for a in "$@"; do case $a in cli) cli=1 ;; C[0-9][0-9]) prop=$a ;; esac; done
features=()
[ -n "$prop" ] && features=(--no-default-features --features "${prop,,}")
cargo +stable build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" --target-dir "$target/harness" \
    "${features[@]}" "${src[@]}" > "$log" 2>&1 || fail harness
if [ -n "$prop" ]; then
    # another name, so that a run already started keeps its program
    mkdir -p "$target/bin" && cp "$target/harness/release/vharness" "$target/bin/.$prop.$$" && mv -f "$target/bin/.$prop.$$" "$target/bin/vharness-$prop" || fail copy
fi
if [ -n "$cli" ]; then
    (cd / && CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 cargo +stable build --release --offline --locked --manifest-path /repo/Cargo.toml \
        --bins --target-dir "$target/cli" "${src[@]}") > "$log" 2>&1 || fail tools
fi
exit 0
