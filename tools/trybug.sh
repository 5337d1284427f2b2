#!/bin/bash
# trybug.sh <seed id> [property]: run a property's check on a scratch copy of /repo with the planted bug
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/r"; git -C /repo archive HEAD | tar -x -C "$W/r"
(cd "$W/r" && git init -q . && git apply "$V/seeded/$1/patch.diff") || exit 9
P=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$1/meta.json'))['property'])")}
cp -r "$V/lib" "$V/check.py" "$W/"; mkdir -p "$W/engine/target/release"; cp "$V/engine/target/release/rfxai" "$W/engine/target/release/"; cp "$V/known-findings.txt" "$W/" 2>/dev/null
S=$(date +%s)
VP_REPO="$W/r" timeout 900 python3 "$W/check.py" "$P" > "$W/out" 2>&1; rc=$?
echo "$1 $P rc=$rc $(($(date +%s)-S))s: $(grep -v '^property' "$W/out" | cut -c1-230 | head -${LINES_SHOWN:-3})"
