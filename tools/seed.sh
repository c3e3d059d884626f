#!/bin/bash
# seed.sh ID [PROP..]: in a scratch copy of /repo, checks that seeded/ID builds,
# passes the stable tests, is shown by its demo, and which checks catch it.
id="$1"; shift; s=/verif/seeded/$id; w=/tmp/sw; v=/tmp/simw
export HOME=/root PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p $w $v
rsync -a --checksum --no-times --delete --exclude target /repo/ $w/ 2>/dev/null || { cp -a /repo/. $w/; }
rsync -a --checksum --no-times --delete --exclude target --exclude Cargo.toml /verif/sim/ $v/sim/
sed "s#/repo#$w#" /verif/sim/Cargo.toml > $v/ct; cmp -s $v/ct $v/sim/Cargo.toml || cp $v/ct $v/sim/Cargo.toml
cp /verif/known-findings.txt $v/
[ -f $s/demo.sh ] || sed "s/@ID@/$id/" /verif/tools/demo.sh.tmpl > $s/demo.sh
(cd $w && bash $s/demo.sh >/tmp/demo0.log 2>&1); d0=$?
(cd $w && git checkout -q -- . && git apply $s/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
(cd $w && timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/st.log 2>&1); python3 /opt/vp/results.py /tmp/st.json cargo:/tmp/st.log >/dev/null; t="$(bash /verif/tools/chk.sh /tmp/st.json | tail -1)"; else t=skipped; fi
(cd $w && bash $s/demo.sh >/tmp/demo1.log 2>&1); d1=$?
echo "$id: demo clean=$d0 patched=$d1 tests: $t"
p="$*"; [ -z "$p" ] && p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
(cd $v/sim && cargo build --release --offline --quiet >/tmp/sb.log 2>&1) || { echo "sim build failed"; tail -5 /tmp/sb.log; }
mkdir -p $v/evidence
for q in $p; do r=$(cd $v && VERIF_DIR=$v ./sim/target/release/sim check --prop $q --tier quick 2>&1); echo "   $q: exit $? $(echo "$r" | grep -m1 VIOLATION)"; echo "$r" | grep -v VIOLATION | head -${LINES_:-2} | cut -c1-300; done
cd $w && git checkout -q -- .
