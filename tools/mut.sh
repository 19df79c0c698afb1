#!/bin/bash
# mut.sh <patch|-R commit> ids... : applies a patch (or reverts a commit) in /repo's working tree, runs checks, restores the tree
if [ "$1" = "-R" ]; then git -C /repo show "$2" | git -C /repo apply -R || exit 1; shift 2; else git -C /repo apply "$1" || exit 1; shift; fi
for i in "$@"; do out=$(/verif/run.sh $i --tier quick 2>&1); echo "$i rc=$? $(echo "$out" | grep -E 'VIOLATION|INCONC' | head -2 | cut -c1-220 | tr '\n' ' ')"; done
git -C /repo checkout -- .
