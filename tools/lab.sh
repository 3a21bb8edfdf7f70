#!/bin/bash
# Dev tool: a copy of /verif (working tree) and /repo (HEAD) under /tmp/lab$1 whose harness is built against the copy.
# lab.sh N CMD... runs CMD in it.
L=/tmp/lab$1; shift
mkdir -p $L/verif
[ -d $L/repo ] || git clone -q /repo $L/repo
[ -z "$(git -C $L/repo status --short)" ] && git -C $L/repo fetch -q && git -C $L/repo reset -q --hard origin/HEAD
rsync -a --delete --exclude out --exclude .git --exclude 'harness/target*' --exclude evidence /verif/ $L/verif/ 2>/dev/null || (cd /verif && tar c --exclude=./out --exclude=./.git --exclude='./harness/target*' --exclude=./evidence . | tar x -C $L/verif)
[ -d $L/verif/harness/target ] || cp -a /verif/harness/target /verif/harness/target-noserde $L/verif/harness/
sed -i "s#path = \"/repo\"#path = \"$L/repo\"#" $L/verif/harness/Cargo.toml
export LAB_REPO=$L/repo LAB_VERIF=$L/verif NRBF_OUT=$L/out
cd $L/verif && "$@"
