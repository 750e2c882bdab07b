#!/bin/bash
# unfix.sh COMMIT PROP...: undo one fix in /repo's working tree, run checks, restore.
C=$1; shift
git -C /repo diff --quiet || exit 9
git -C /repo show $C | git -C /repo apply -R || { echo "does not revert"; exit 8; }
for p in "$@"; do echo "unfix $C $p: $(/verif/bin/check $p 2>&1 | tail -2 | cut -c1-300)"; done
git -C /repo checkout -q -- .
