#!/bin/bash
# builds the analysis tools into build/ (git-ignored)
cd "$(dirname "$0")" || exit 1
exec python3 -c 'import sys; sys.path.insert(0, "."); from sa.build import tool; print(tool())'
