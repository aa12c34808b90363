#!/bin/bash
# everything is rebuilt by each check; this only makes sure the tools are there
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
command -v verus >/dev/null && command -v cargo >/dev/null && python3 -c 'import json' || exit 1
exit 0
