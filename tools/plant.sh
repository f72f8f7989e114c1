#!/bin/bash
# plant.sh ID: validates the change made in the scratch copy /tmp/rp against seeded/ID/demo.sh
# and writes seeded/ID/patch.diff.   plant.sh -r ID re-validates an existing patch.
R=/tmp/rp; . /opt/vp/env.sh
if [ "$1" = -r ]; then shift; RE=1; fi
S=/verif/seeded/$1
git -C $R fetch -q /repo HEAD
if [ -n "$RE" ]; then git -C $R checkout -qf -- . ; git -C $R reset -q --hard FETCH_HEAD; git -C $R apply $S/patch.diff || exit 1
else git -C $R diff > $S/patch.diff; fi
git -C $R diff --stat | tail -3
cd $R
cargo build --workspace --offline 2>&1 | grep -E '^(error|warning: unused)' ; cargo test --workspace --no-fail-fast --offline -- --test-threads 1 > /tmp/rp.test 2>&1
echo "tests: $(grep -c '^test .* ok$' /tmp/rp.test) ok (want 11)"
bash $S/demo.sh >/tmp/rp.d1 2>&1; a=$?; tail -3 /tmp/rp.d1
git checkout -q -- . ; cargo build --workspace --offline >/dev/null 2>&1
bash $S/demo.sh >/tmp/rp.d2 2>&1; b=$?; tail -3 /tmp/rp.d2
git apply --check $S/patch.diff && echo "applies"
echo "demo with patch: $a (want != 0), without: $b (want 0)"
