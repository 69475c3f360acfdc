#!/bin/bash
# seed.sh ID : confirm seeded/ID in a scratch copy of /repo placed at /tmp/seedrepo (bound to /repo by an
# unshared mount is not available here, so demos take the repository from the current directory).
# seed.sh new ID : save the working diff of /tmp/seedrepo as seeded/ID/patch.diff
set -u
W=/tmp/seedrepo
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
[ -d $W ] || cp -a /repo $W
if [ "$1" = new ]; then mkdir -p /verif/seeded/$2; git -C $W diff > /verif/seeded/$2/patch.diff; git -C $W checkout -q -- .; exit; fi
S=/verif/seeded/$1
git -C $W checkout -q -- . ; git -C $W pull -q 2>/dev/null
cd $W && cargo build --offline -q 2>/dev/null || exit 9
bash $S/demo.sh >/tmp/seed.demo0 2>&1; echo "unchanged demo: $?"
git apply $S/patch.diff || exit 9
cargo build --offline 2>&1 | grep -E '^(error|warning: unused)' ; 
bash $S/demo.sh >/tmp/seed.demo1 2>&1; echo "patched demo: $?"; tail -3 /tmp/seed.demo1
cargo test --offline 2>&1 | grep -E '^test result|FAILED|failed'
git checkout -q -- .
