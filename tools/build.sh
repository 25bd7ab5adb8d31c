#!/bin/bash
# build.sh [all]   Builds the simulator against /repo's working tree (offline).
# Output: /verif/target/release/ripp-sim; with "all" also the sequential builds (no `parallel`
# feature), /verif/target/sequential/release/{ripp-sim,ripp-table}.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export RUSTFLAGS="--cfg ripp_sim --cap-lints warn"
export CARGO_NET_OFFLINE=true
target="${RIPP_TARGET:-$root/target}"
mkdir -p "$target/sequential"
# The state of the code under test decides, not file times.
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)

# build <directory of the crate> <target directory> <name of the stamp> <arguments>
build() {
    local dir="$1"
    cd "$root/$1" || return 2
    export CARGO_TARGET_DIR="$2"
    local stamp="$2/repo.sum.$3" log="$2/build.$3.log"
    shift 3
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
        for p in ark-inner-products ark-dh-commitments ark-ip-proofs ark-sipp; do
            cargo clean --release --offline -p $p >/dev/null 2>&1
        done
        rm -f "$stamp"
    fi
    [ "$dir" = sim ] && export RUSTC_WRAPPER="$root/tools/rustc.sh"
    if ! cargo build --release --offline "$@" >"$log" 2>&1; then
        tail -60 "$log"
        return 2
    fi
    echo "$sum" >"$stamp"
}

if [ "${1:-}" = all ]; then
    (
        ok=1
        build table "$target/sequential/table" table && build sim "$target/sequential/sim" sim --no-default-features || ok=0
        mkdir -p "$target/sequential/release"
        rm -f "$target/sequential/release/ripp-table" "$target/sequential/release/ripp-sim"
        if [ $ok = 1 ]; then
            cp "$target/sequential/table/release/ripp-table" "$target/sequential/sim/release/ripp-sim" "$target/sequential/release/"
        else
            echo "note: the sequential build failed; nothing is compared with it"
        fi
    ) &
fi
build sim "$target" sim
code=$?
wait
[ $code = 0 ] || { echo "build failed"; exit 2; }
