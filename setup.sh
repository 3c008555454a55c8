#!/bin/bash
# Builds all checkers once (also warms Go's build cache).
cd "$(dirname "$0")" || exit 1
for id in $(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])'); do
    echo "$id"
done | xargs -P 4 -n 1 bash run.sh --build-only
