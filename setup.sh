#!/bin/bash
# nothing is prebuilt: every check rebuilds from /repo's working tree
set -e
cd "$(dirname "$0")"
g++ --version >/dev/null
python3 -c "import registry" 
mkdir -p build evidence replays
