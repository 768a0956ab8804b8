#!/bin/bash
# rebase_seed.sh OLDREV IDS...: rewrites the patches made against OLDREV for /repo's HEAD
cd "$(dirname "$0")/.."; old=$1; shift
for i in "$@"; do
  d=/tmp/w/rb; rm -rf /tmp/w/rb; git clone -q /repo $d; 
  (cd $d && git config user.email a@b && git config user.name x && head=$(git rev-parse HEAD) && git checkout -q $old && git apply $OLDPWD/seeded/$i/patch.diff && git commit -qam s && git rebase -q $head >/dev/null 2>&1 && git diff $head > $OLDPWD/seeded/$i/patch.diff && echo ok $i || echo CONFLICT $i)
done
rm -rf /tmp/w/rb
