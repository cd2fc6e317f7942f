#!/bin/bash
# mut.sh FILE SED-EXPR CHECK... : try a change in a scratch worktree
WT=/tmp/boo-mut.$$; git -C /repo worktree add -q --detach $WT HEAD
f=$1; e=$2; shift 2
sed -i -E "$e" $WT/$f
if git -C $WT diff --quiet; then echo "NO CHANGE: $e"; else
for c in "$@"; do VERIF_REPO=$WT python3 /verif/check.py $c quick > /tmp/mut.$$.out 2>&1; rc=$?; echo "$rc $c  $f $e"; [ $rc = 2 ] && tail -5 /tmp/mut.$$.out | cut -c1-300; done; fi
git -C /repo worktree remove --force $WT; rm -f /tmp/mut.$$.out
