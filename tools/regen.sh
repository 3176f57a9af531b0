#!/bin/bash
# regenerates the committed metadata
cd "$(dirname "$0")/.."
./build.sh >/dev/null 2>&1 || { echo build failed; exit 1; }
python3 tools/gen_props.py > properties.jsonl.new && mv properties.jsonl.new properties.jsonl
python3 tools/gen_manifest.py && python3 tools/gen_known.py
