#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# exit 0: held; 1: VIOLATION line printed; anything else: the check failed.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export PV_DIR=$here PV_CLI=$here/target/cli/debug/post
exec "$here/target/release/pv" check "$1" "${2:-quick}"
