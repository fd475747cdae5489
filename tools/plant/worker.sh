#!/bin/bash
# worker.sh N: scratch copies /tmp/w/N/{repo,verif} of the tree and the harness, fresh from the last state
N=$1; B=/tmp/w/$N; V="$(cd "$(dirname "$0")/../.." && pwd)"
mkdir -p "$B"
if [ ! -d "$B/repo" ]; then git clone -q /repo "$B/repo"; cp /repo/Cargo.lock "$B/repo/Cargo.lock"; fi
git -C "$B/repo" fetch -q origin; git -C "$B/repo" checkout -q -- . ; git -C "$B/repo" reset -q --hard origin/HEAD
cp /repo/Cargo.lock "$B/repo/Cargo.lock"
mkdir -p "$B/verif/harness"
rsync -a --delete --exclude target "$V/harness/" "$B/verif/harness/" 2>/dev/null || { rm -rf "$B/verif/harness"; cp -r "$V/harness" "$B/verif/harness"; }
cp "$V/run.sh" "$V/build.sh" "$V/KNOWN_FINDINGS" "$B/verif/"
sed -i "s#\"/repo/#\"$B/repo/#" "$B/verif/harness/Cargo.toml"
