#!/bin/bash
# Builds the harness (and datafusion-distributed from /repo's working tree) into /verif/.build.
root="$(cd "$(dirname "$0")/.." && pwd)"
cd "$root/harness" || exit 2
export RUSTUP_TOOLCHAIN=1.94 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$root/.build/target"
mkdir -p "$root/.build"
exec 9>"$root/.build/lock"
flock 9
# Cargo decides by modification times whether /repo changed; decide by content as well.
sum=$(cd /repo && { find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$root/.build/repo.sha" 2>/dev/null)" != "$sum" ]; then
    rm -f "$root/.build/repo.sha"
    cargo clean --offline -p datafusion-distributed >/dev/null 2>&1
fi
cargo build --offline "$@" || exit 1
echo "$sum" > "$root/.build/repo.sha"
