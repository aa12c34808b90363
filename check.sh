#!/bin/bash
# usage: check.sh Cxx [--thorough]
cd "$(dirname "$0")" && exec python3 tool/check.py "$@"
