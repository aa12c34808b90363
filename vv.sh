#!/bin/bash
# developer helper: extract and verify (optionally only some modules)
cd "$(dirname "$0")"
python3 tool/extract.py --out /tmp/w/m.rs --report /tmp/w/m.json --ext-uncontracted || exit
A=(); for m in "$@"; do A+=(--verify-module "$m"); done
verus /tmp/w/m.rs --triggers-mode silent --multiple-errors 5 "${A[@]}" 2>&1 | grep -vE "^\[rust_verify|^note: \`#\[|^warning" | head -${LINES_MAX:-100}
