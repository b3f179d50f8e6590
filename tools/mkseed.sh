#!/bin/bash
# tools/mkseed.sh ID WORKTREE: take the diff of a scratch copy as the patch of planted bug ID and restore the copy.
mkdir -p /verif/seeded/$1; git -C "$2" diff > /verif/seeded/$1/patch.diff; git -C "$2" checkout -q -- .; wc -l /verif/seeded/$1/patch.diff
