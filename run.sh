#!/bin/bash
# usage: run.sh <property> quick|thorough      explore the property on /repo's working tree
#        run.sh <property> replay FILE         run one recorded case again
#        run.sh build                          build everything
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/target" "$here/out" "$here/evidence"

# The sources, by content: a build must never be reused for other sources of the same age.
stamp() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \
        -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.txt' \) -print0 | sort -z | xargs -0 sha256sum
     cd "$here/mc" && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum
}

build() { # bin, hooked?
    local bin=$1 dir=$here/target/plain flags=
    if [ "$2" = hooked ]; then dir=$here/target/hooked; flags="--cfg trellis_verif"; fi
    mkdir -p "$dir"
    (
        flock 9
        s=$(stamp)
        if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$s" ]; then
            rm -f "$dir/stamp"
            (cd "$here/mc" && cargo clean -q --offline --target-dir "$dir" -p trellis -p dot_parser -p mc) 2>/dev/null
            echo "$s" > "$dir/stamp"
        fi
        cd "$here/mc" && RUSTFLAGS="$flags" cargo build -q --offline --target-dir "$dir" --bin "$bin" 2> "$dir/$bin.log" 9>&-
    ) 9> "$dir/lock"
    local rc=$?
    if [ $rc -ne 0 ]; then
        tail -60 "$dir/$bin.log" >&2
        echo "error: building $bin failed" >&2
        exit 2
    fi
    BIN=$dir/debug/$bin
}

if [ "$1" = build ]; then
    for b in containers graphs lexer plan common; do
        if [ -f "$here/mc/src/bin/$b.rs" ]; then build $b; fi
    done
    if [ -f "$here/mc/src/bin/hooked.rs" ]; then build hooked hooked; fi
    exit 0
fi
case $1 in
    R0*|V0*|Q0*) build containers ;;
    G*) build graphs ;;
    L*) build lexer ;;
    P08|C02) build hooked hooked ;;
    P*) build plan ;;
    C*) build common ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
esac
export MC_HOME="$here"
if [ "$2" = replay ]; then exec "$BIN" --replay "$3"; fi
exec "$BIN" "$1" "$2"
