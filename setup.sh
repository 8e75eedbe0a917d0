#!/bin/bash
# Nothing to install: every check builds what it needs from the committed files and /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$HERE/evidence" "$HERE/target"
export PATH="/root/.cargo/bin:$PATH"
cargo --version
