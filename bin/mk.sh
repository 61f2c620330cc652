#!/bin/bash
# mk.sh FEATURE: (re)build one harness (development aid)
cd "$(dirname "$(dirname "$(readlink -f "$0")")")"
python3 -c "import sys;sys.path.insert(0,'bin');import check;check.build_engine();check.build_harness('$1')" 2>&1 | grep -v "^warning" | head -${2:-40}
