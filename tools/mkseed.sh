#!/bin/bash
# mkseed.sh <id>: turn the edits in /tmp/w (a scratch copy of /repo) into seeded/<id>/patch.diff and reset the copy
set -e
id=$1
mkdir -p /verif/seeded/$id
git -C /tmp/w diff > /verif/seeded/$id/patch.diff
git -C /tmp/w checkout -q -- .
wc -l /verif/seeded/$id/patch.diff
