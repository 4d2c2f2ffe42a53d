#!/bin/bash
# rebase.sh ID... : regenerate patch.diff of planted bugs against /repo's HEAD
for id in "$@"; do
  d=$(mktemp -d); cp -a /repo "$d/r"; cd "$d/r" || exit 1
  git checkout -q -- .
  if patch -p1 -s --no-backup-if-mismatch < /verif/seeded/$id/patch.diff; then
    git diff > /verif/seeded/$id/patch.diff; echo "rebased $id"
  else echo "FAILED $id"; fi
  cd /; rm -rf "$d"
done
