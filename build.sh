#!/bin/sh
# Builds the simulator, with the code under test instrumented, from /repo's working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
target="$here/sim/target"
mkdir -p "$target"

# Do not depend on file times: whatever the sources' content, build exactly that.
now="$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print | LC_ALL=C sort | xargs sha256sum | sha256sum)"
was="$(cat "$target/sources.sha256" 2>/dev/null || true)"
if [ "$now" != "$was" ]; then
    rm -f "$target/sources.sha256"
    for d in "$target"/release/.fingerprint/plotline-* "$target"/release/.fingerprint/plotline_cli-* \
        "$target"/cli/release/.fingerprint/plotline-* "$target"/cli/release/.fingerprint/plotbin-*; do
        case "$d" in "$here"/sim/target/*release/.fingerprint/plot*) rm -rf "$d" ;; esac
    done
fi

# The interval plugin is in no workspace; what installs it does not compile.
rm -rf "$here/sim/target/interval"
mkdir -p "$target/interval"
cp -R /repo/plugins/interval/src/. "$target/interval/"
sed -i -E '/^ *(pub(\([a-z]+\))? +)?(mod|use) +plugin(::.*)?;/d' "$target/interval/lib.rs"

cd "$here/sim"
if ! RUSTC_WRAPPER="$here/sim/rustc-wrapper.sh" cargo build --bin plsim --release --offline --quiet --target-dir "$target" 2>"$target/build.log"; then
    cat "$target/build.log" >&2
    echo "harness: the simulator does not build" >&2
    exit 2
fi
for part in preload cli; do
    cd "$here/sim/$part"
    if ! cargo build --release --offline --quiet --target-dir "$target/$part" 2>"$target/build.log"; then
        cat "$target/build.log" >&2
        echo "harness: $part does not build" >&2
        exit 2
    fi
done
printf '%s\n' "$now" >"$target/sources.sha256"

if [ "${1:-}" = interval ]; then
    cd "$here/sim"
    if ! RUSTC_WRAPPER="$here/sim/rustc-wrapper.sh" cargo build --bin plsim-interval --features interval --release --offline --quiet --target-dir "$target" 2>"$target/build.log"; then
        cat "$target/build.log" >&2
        echo "harness: the simulator does not build with the interval plugin" >&2
        exit 2
    fi
fi
