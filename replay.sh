#!/bin/bash
# usage: replay.sh FILE   (replays one saved case against /repo's current tree)
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export PV_DIR=$here PV_CLI=$here/target/cli/debug/post
exec "$here/target/release/pv" replay "$1"
