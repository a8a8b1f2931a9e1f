#!/bin/bash
# mkseed.sh ID : validates /verif/seeded/ID (patch.diff, demo.sh) in a scratch copy of /repo
set -u
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo $w/repo
cd $w/repo && git checkout -q -- . 
( cd $w/repo && bash $d/demo.sh >$w/o1 2>&1 ); a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
cargo test --offline --target-dir $w/t >$w/o2 2>&1; t=$?
( cd $w/repo && bash $d/demo.sh >$w/o3 2>&1 ); b=$?
echo "$id: demo clean=$a patched=$b tests=$t ($(grep -c '\.\.\. ok' $w/o2) ok, $(grep -c 'FAILED$' $w/o2) failed)"
[ $a = 0 ] || tail -5 $w/o1
[ $b != 0 ] || tail -5 $w/o3
[ $t = 0 ] || grep FAILED $w/o2 | head
rm -rf "$w"
