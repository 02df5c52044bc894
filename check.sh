#!/bin/bash
# check.sh --setup               build everything
# check.sh <property> [tier]     build from /repo's working tree, then explore; exit 0 held, 1 violation, 2 no answer
# check.sh --replay <file>       build, then re-execute a replay file; exit 1 if the violation reproduces
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
repo=/repo
target="$here/target"
stamp="$target/.source-hash"
bin="$target/release/jester_dst"

source_hash() {
    ( cd "$repo" && find . -path ./.git -prune -o -name target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum
      cd "$here/sim" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum ) | sha256sum | cut -d' ' -f1
}

build() {
    mkdir -p "$target"
    # one build at a time; checks may be started side by side
    exec 9>"$target/.build-lock"
    flock 9
    local now old=""
    now="$(source_hash)"
    [ -f "$stamp" ] && old="$(cat "$stamp")"
    if [ "$now" != "$old" ] || [ ! -x "$bin" ]; then
        # do not rely on time stamps: whatever differs in content is compiled anew
        ( cd "$here/sim" && cargo clean --release --offline -p jester_dst -p jester_maths -p jester_hashes \
            -p jester_encryption -p jester_double_ratchet -p jester_sharing ) >/dev/null 2>&1
        rm -f "$stamp"
        if ! ( cd "$here/sim" && cargo build --release --offline ) >"$target/build.log" 2>&1; then
            grep -E -A12 '^error' "$target/build.log" | head -80 >&2
            echo "BUILD FAILED (full log: $target/build.log)" >&2
            exit 2
        fi
        echo "$now" >"$stamp"
    fi
    exec 9>&-
}

case "${1:-}" in
    --setup)
        build
        echo "built $bin"
        ;;
    --replay)
        build
        exec "$bin" replay "$2" ${3:+"$3"}
        ;;
    "")
        echo "usage: check.sh --setup | --replay FILE | PROPERTY [quick|thorough]" >&2
        exit 2
        ;;
    *)
        build
        tier="${2:-${VERIF_TIER:-quick}}"
        exec "$bin" check --property "$1" --tier "$tier" --verif "$here"
        ;;
esac
