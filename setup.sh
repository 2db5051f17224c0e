#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo's working tree.
cd "$(dirname "$0")" && mkdir -p evidence build && exec python3 lib/vbuild.py --selftest
