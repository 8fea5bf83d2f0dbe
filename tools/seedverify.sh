#!/bin/bash
# seedverify.sh ID...: in a scratch copy of /repo, confirm that a planted bug applies, builds, passes the stable
# tests, and that its demo passes without it and fails with it.
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedverify/repo/target
for id in "$@"; do
  D=/verif/seeded/$id
  W=/tmp/seedverify; S=$W/repo
  mkdir -p $W
  if [ ! -d $S ]; then cp -a /repo $S; fi
  ( cd $S && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD )
  if [ "${SKIPCLEAN:-0}" = 0 ]; then ( cd $S && cargo build --workspace --profile test --offline --locked -q ) ; ( cd $S && bash $D/demo.sh >$W/clean.log 2>&1 ); a=$?; else a=0; fi
  ( cd $S && git apply $D/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  ( cd $S && cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 >$W/test.log 2>&1; cargo build --workspace --profile test --offline --locked -q 2>>$W/test.log; python3 /opt/vp/results.py $W/out.json "cargo:$W/test.log" >$W/res.log 2>&1 )
  t=$(tail -1 $W/res.log)
  ( cd $S && bash $D/demo.sh >$W/bug.log 2>&1 ); b=$?
  echo "$id: demo clean=$a bug=$b tests: $t"
  [ $a != 0 ] && tail -5 $W/clean.log
  [ $b = 0 ] && tail -5 $W/bug.log
  ( cd $S && git checkout -q -- . )
done
