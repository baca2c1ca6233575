#!/bin/sh
# check.sh PROP      build the simulator against /repo's working tree, run one check
# check.sh --build   build only
# VERIF_SEED, VERIF_TIER as in MANIFEST.schema.json
V=$(cd "$(dirname "$0")" && pwd) || exit 2
export CARGO_NET_OFFLINE=true
T="$V/target"
mkdir -p "$T/lean/bin" || exit 2
# cargo decides by modification time what to rebuild; decide by content instead
H=$(cd /repo && { find Cargo.toml src -type f | LC_ALL=C sort | while read -r f; do sha256sum "$f"; done; } | sha256sum)

failed() {
    grep -E "^error" -A12 "$1" | head -60
    tail -5 "$1"
    echo "HARNESS-ERROR $2 does not build against /repo"
    exit 2
}

# one more node of the deployment of C19: name, profile, features of the library
node() {
    cargo build --offline --profile "$2" --no-default-features --features "$3" --target-dir "$T/lean" >"$T/lean.log" 2>&1 || failed "$T/lean.log" "the node '$1'"
    cp "$T/lean/$2/lean" "$T/lean/bin/$1.new" && mv "$T/lean/bin/$1.new" "$T/lean/bin/$1" || exit 2
}

cd "$V/sim" || exit 2
if [ "$(cat "$T/repo.sha256" 2>/dev/null)" != "$H" ]; then
    cargo clean --offline --release --target-dir "$T" -p voprf >"$T/clean.log" 2>&1
fi
cargo build --offline --release --target-dir "$T" >"$T/build.log" 2>&1 || failed "$T/build.log" "the simulator"
echo "$H" >"$T/repo.sha256"

case "$1" in
--build | C19)
    cd "$V/lean" || exit 2
    if [ "$(cat "$T/lean/repo.sha256" 2>/dev/null)" != "$H" ]; then
        cargo clean --offline --profile release --target-dir "$T/lean" -p voprf >"$T/clean.log" 2>&1
        cargo clean --offline --profile checked --target-dir "$T/lean" -p voprf >"$T/clean.log" 2>&1
    fi
    R=ristretto255-ciphersuite
    node bare release ""
    node bare-checked checked ""
    node ristretto release "$R"
    node alloc release "$R,alloc"
    node std-checked checked "$R,std"
    node serde release "$R,serde"
    node danger release "$R,danger"
    node everything release "$R,std,serde,danger"
    echo "$H" >"$T/lean/repo.sha256"
    ;;
esac
[ "$1" = "--build" ] && exit 0
exec "$T/release/sim" check "$1" "$V"
