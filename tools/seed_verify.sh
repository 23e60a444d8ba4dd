#!/bin/bash
# usage: seed_verify.sh ID...   confirms planted bugs in a scratch copy of /repo: the patch applies, builds, passes
# the stable tests, its demo passes without and fails with the patch. Needs no /verif checks.
S=/tmp/seedcopy
if [ ! -d $S ]; then cp -a /repo $S; fi
cd $S && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
. /opt/vp/env.sh; cd $S
export CARGO_TARGET_DIR=$S/target
b(){ cargo build --workspace --offline 2>&1 | tail -3 > /tmp/seed.build; return ${PIPESTATUS[0]}; }
for id in "$@"; do
  D=/tmp/seeddemo; mkdir -p $D; find $D -type f -delete; cp /verif/seeded/$id/* $D/
  git checkout -q -- .; b || { echo "$id: base build fails"; continue; }
  (cd $S; timeout 300 bash $D/demo.sh >/tmp/seed.demo0 2>&1); r0=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  b || { echo "$id: does not build"; cat /tmp/seed.build; git checkout -q -- .; continue; }
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.test 2>&1; rt=$?
  (cd $S; timeout 300 bash $D/demo.sh >/tmp/seed.demo1 2>&1); r1=$?
  echo "$id: demo unchanged=$r0 patched=$r1 tests=$rt  $(tail -1 /tmp/seed.demo1)"
  git checkout -q -- .
done
