#!/bin/bash
# Nothing is prebuilt: each check builds what it needs from /repo's working tree.
set -e
. /opt/vp/env.sh
cargo --version
mkdir -p "$(dirname "$0")/evidence"
