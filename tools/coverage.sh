#!/bin/bash
# coverage.sh [CASES]: which code of /repo the monitors' workloads execute (scratch build under /tmp, removed afterwards)
V="$(cd "$(dirname "$0")/.." && pwd)"; W=$(mktemp -d /tmp/cov.XXXXXX); N=${1:-300}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= DOCS_RS=1
T=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
mkdir -p "$W/v" "$W/p"; cp -r "$V/harness" "$V/KNOWN_FINDINGS" "$W/v/"
(cd "$W/v/harness" && RUSTFLAGS="-C instrument-coverage" CARGO_TARGET_DIR="$W/t" cargo build --release --offline --quiet) || exit 3
for i in $(seq -w 1 35); do
  b=hplmon; case $i in 22|23|31) b=hplcodec;; esac
  HPLMON_BASE="$W/v" LLVM_PROFILE_FILE="$W/p/%p.profraw" "$W/t/release/$b" C$i --cases "$N" >"$W/log" 2>&1; echo -n "C$i:$? "
done; echo
"$T/llvm-profdata" merge -o "$W/all" "$W"/p/*.profraw
"$T/llvm-cov" export "$W/t/release/hplmon" -object "$W/t/release/hplcodec" -instr-profile="$W/all" 2>/dev/null >"$W/l.json"
python3 - "$W/l.json" <<'P'
import json, sys
cov, src = {}, {}
for f in json.load(open(sys.argv[1]))['data'][0]['functions']:
    for l1, c1, l2, c2, n, fid, _, kind in f['regions']:
        fn = f['filenames'][fid]
        if fn.startswith('/repo/') and kind == 0:
            k = (fn, l1, c1, l2, c2); cov[k] = cov.get(k, 0) + n
miss = 0
for (fn, l1, c1, l2, c2), n in sorted(cov.items()):
    if n: continue
    s = src.setdefault(fn, open(fn).read().split('\n')); t = s[l1 - 1][c1 - 1:(c2 - 1 if l1 == l2 else None)]
    if t == '?': continue          # the error exit of a call that cannot fail here
    miss += 1; print(f"{fn[6:]}:{l1}: {t}")
print(f"{len(cov)} regions, {sum(1 for n in cov.values() if n)} executed, {miss} not executed besides error exits")
P
rm -rf "$W"
