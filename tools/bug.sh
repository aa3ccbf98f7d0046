#!/bin/bash
# tools/bug.sh [-t] ID CHECK...: confirm seeded/ID in a scratch copy (/tmp/rb, /tmp/rv), never in /repo.
# -t: also run the repository's own tests against the planted bug.
tests=0; [ "$1" = -t ] && { tests=1; shift; }
id=$1; shift
d=/verif/seeded/$id
exec 9>/tmp/rb.lock; flock 9
mkdir -p /tmp/rb /tmp/rv
rsync -a --delete --exclude target --exclude .git /repo/ /tmp/rb/
python3 - <<'P'
import re
p='/tmp/rb/Cargo.toml';s=open(p).read();open(p,'w').write(re.sub(r'(?m)^\s*"siderust-ffi",?[ \t]*\n','',s,count=1))
P
cp /opt/vp/ws/Cargo.lock /tmp/rb/Cargo.lock
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays /verif/ /tmp/rv/
sed -i 's|path = "/repo"|path = "/tmp/rb"|' /tmp/rv/harness/Cargo.toml; sed -i 's|cd /repo|cd /tmp/rb|' /tmp/rv/run.sh
echo "== $id"
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/rb.demo0 2>&1; echo "demo clean: $?")
(cd /tmp/rb && git init -q 2>/dev/null; git -C /tmp/rb apply $d/patch.diff) || { echo "patch does not apply"; exit 1; }
(cd /tmp/rb; export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/rb/target CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only SIDERUST_JPL_STUB=all; T="--lib --test test_altitude_api"; [ $tests = 1 ] && T=--all-targets; cargo test --workspace --all-features $T --no-run --offline >/tmp/rb.build 2>&1 || { echo 'does not build'; grep -A8 '^error' /tmp/rb.build | head -20; })
(cd /tmp/rb && timeout 300 bash $d/demo.sh >/tmp/rb.demo1 2>&1; echo "demo patched: $?"; grep -m1 -A1 panicked /tmp/rb.demo1 | tail -1 | cut -c1-300)
for c in "$@"; do bash /tmp/rv/run.sh $c >/tmp/rb.check 2>&1; echo "check $c: $?"; grep -E "^\[|^build failed|^error" /tmp/rb.check | cut -c1-260 | head -4; done
if [ $tests = 1 ]; then
  cd /tmp/rb; export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/rb/target CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only SIDERUST_JPL_STUB=all
  mkdir -p /tmp/rblogs; cargo test --workspace --all-features --lib --bins --tests --examples --no-fail-fast --offline -- --test-threads 8 >/tmp/rblogs/tests.log 2>&1
  cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 >/tmp/rblogs/doc.log 2>&1
  grep -E '^error|^test .*FAILED' /tmp/rblogs/tests.log /tmp/rblogs/doc.log | head
  python3 /opt/vp/results.py /tmp/rb.out.json "cargo:/tmp/rblogs/*.log"
  python3 - <<'P'
import json
g=lambda p:next(v for k,v in json.load(open(p)).items() if k in('stable','passed','pass','tests'))
b,o=set(g('/opt/vp/BASELINE.json')),set(g('/tmp/rb.out.json'))
print('baseline tests lost:',sorted(b-o)[:5],len(b-o),'of',len(b))
P
fi
